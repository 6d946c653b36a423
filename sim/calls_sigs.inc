// generated by gen/gen_calls.py
struct KI { int m0; };
struct KF { float m0; };
struct KII { int m0; int m1; };
struct KFF { float m0; float m1; };
struct KIF { int m0; float m1; };
struct KL { long long m0; };
struct KD { double m0; };
struct KDD { double m0; double m1; };
struct KLD { long long m0; double m1; };
struct KDL { double m0; long long m1; };
struct KLL { long long m0; long long m1; };
struct KIII { int m0; int m1; int m2; };
struct KFFF { float m0; float m1; float m2; };
struct KFFI { float m0; float m1; int m2; };
struct KFFFF { float m0; float m1; float m2; float m3; };
struct KIFIF { int m0; float m1; int m2; float m3; };
struct KDFF { double m0; float m1; float m2; };
struct KFFL { float m0; float m1; long long m2; };
struct KC { char m0; };
struct KCC { char m0; char m1; };
struct KCSI { char m0; short m1; int m2; };
struct KSS { short m0; short m1; };
struct KID { int m0; double m1; };
struct KDDD { double m0; double m1; double m2; };
struct KIL { int m0; long long m1; };
struct KF6 { float m0; float m1; float m2; float m3; float m4; float m5; };
struct KMIX { char m0; short m1; int m2; long long m3; float m4; double m5; bool m6; };
struct KDI { double m0; int m1; };
struct KLF { long long m0; float m1; };
struct KBIG { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; int m36; int m37; int m38; int m39; int m40; int m41; int m42; int m43; int m44; int m45; int m46; int m47; int m48; int m49; int m50; int m51; int m52; int m53; int m54; int m55; int m56; int m57; int m58; int m59; int m60; int m61; int m62; int m63; int m64; int m65; int m66; int m67; int m68; int m69; int m70; int m71; int m72; int m73; int m74; int m75; int m76; int m77; int m78; int m79; int m80; int m81; int m82; int m83; int m84; int m85; int m86; int m87; int m88; int m89; int m90; int m91; int m92; int m93; int m94; int m95; int m96; int m97; int m98; int m99; int m100; int m101; int m102; int m103; int m104; int m105; int m106; int m107; int m108; int m109; int m110; int m111; int m112; int m113; int m114; int m115; int m116; int m117; int m118; int m119; int m120; int m121; int m122; int m123; int m124; int m125; int m126; int m127; int m128; int m129; int m130; int m131; int m132; int m133; int m134; int m135; int m136; int m137; int m138; int m139; };
struct KNFI { float m0; int m1; };
struct KNFIF { float m0; int m1; float m2; };
struct KNDFI { double m0; float m1; int m2; };
struct KNFFI { float m0; float m1; int m2; };
struct KNIF { int m0; float m1; };
struct KNFF { float m0; float m1; };
struct KNFFF { float m0; float m1; float m2; };
struct KNFFFI { float m0; float m1; float m2; int m3; };
struct KNDD { double m0; double m1; };
struct KNCII { char m0; int m1; int m2; };
struct KNFCCS { float m0; char m1; char m2; short m3; };
struct KAFF { float m0; float m1; };
struct KAF3 { float m0; float m1; float m2; };
struct KADD { double m0; double m1; };
struct KAIII { int m0; int m1; int m2; };
struct KIAF { int m0; float m1; };
struct KFAI { float m0; int m1; };
struct KIAFF { int m0; float m1; float m2; };
struct KFAII { float m0; int m1; int m2; };
struct KDAF { double m0; float m1; float m2; };
struct KAF6 { float m0; float m1; float m2; float m3; float m4; float m5; };
static const ClassDef classDefs[] = { { "KI", "i", 0 }, { "KF", "f", 0 }, { "KII", "ii", 0 }, { "KFF", "ff", 0 }, { "KIF", "if", 0 }, { "KL", "l", 0 }, { "KD", "d", 0 }, { "KDD", "dd", 0 }, { "KLD", "ld", 0 }, { "KDL", "dl", 0 }, { "KLL", "ll", 0 }, { "KIII", "iii", 0 }, { "KFFF", "fff", 0 }, { "KFFI", "ffi", 0 }, { "KFFFF", "ffff", 0 }, { "KIFIF", "ifif", 0 }, { "KDFF", "dff", 0 }, { "KFFL", "ffl", 0 }, { "KC", "c", 0 }, { "KCC", "cc", 0 }, { "KCSI", "csi", 0 }, { "KSS", "ss", 0 }, { "KID", "id", 0 }, { "KDDD", "ddd", 0 }, { "KIL", "il", 0 }, { "KF6", "ffffff", 0 }, { "KMIX", "csilfdb", 0 }, { "KDI", "di", 0 }, { "KLF", "lf", 0 }, { "KBIG", "iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii", 0 }, { "KNFI", "fi", 1 }, { "KNFIF", "fif", 1 }, { "KNDFI", "dfi", 1 }, { "KNFFI", "ffi", 1 }, { "KNIF", "if", 1 }, { "KNFF", "ff", 1 }, { "KNFFF", "fff", 1 }, { "KNFFFI", "fffi", 2 }, { "KNDD", "dd", 1 }, { "KNCII", "cii", 1 }, { "KNFCCS", "fccs", 1 }, { "KAFF", "ff", -1 }, { "KAF3", "fff", -1 }, { "KADD", "dd", -1 }, { "KAIII", "iii", -1 }, { "KIAF", "if", 101 }, { "KFAI", "fi", 101 }, { "KIAFF", "iff", 101 }, { "KFAII", "fii", 101 }, { "KDAF", "dff", 101 }, { "KAF6", "ffffff", -1 } };
static void put(Flat &o, const KI &v){ put(o, v.m0); }
static void get(In &o, KI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); }
static void put(Flat &o, const KF &v){ put(o, v.m0); }
static void get(In &o, KF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); }
static void put(Flat &o, const KII &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KII &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KFF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KIF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KIF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KL &v){ put(o, v.m0); }
static void get(In &o, KL &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); }
static void put(Flat &o, const KD &v){ put(o, v.m0); }
static void get(In &o, KD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); }
static void put(Flat &o, const KDD &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KDD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KLD &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KLD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KDL &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KDL &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KLL &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KLL &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KIII &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KIII &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KFFF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KFFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KFFI &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KFFI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KFFFF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); }
static void get(In &o, KFFFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); }
static void put(Flat &o, const KIFIF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); }
static void get(In &o, KIFIF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); }
static void put(Flat &o, const KDFF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KDFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KFFL &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KFFL &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KC &v){ put(o, v.m0); }
static void get(In &o, KC &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); }
static void put(Flat &o, const KCC &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KCC &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KCSI &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KCSI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KSS &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KSS &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KID &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KID &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KDDD &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KDDD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KIL &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KIL &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KF6 &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); put(o, v.m4); put(o, v.m5); }
static void get(In &o, KF6 &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); get(o, v.m4); get(o, v.m5); }
static void put(Flat &o, const KMIX &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); put(o, v.m4); put(o, v.m5); put(o, v.m6); }
static void get(In &o, KMIX &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); get(o, v.m4); get(o, v.m5); get(o, v.m6); }
static void put(Flat &o, const KDI &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KDI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KLF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KLF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KBIG &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); put(o, v.m4); put(o, v.m5); put(o, v.m6); put(o, v.m7); put(o, v.m8); put(o, v.m9); put(o, v.m10); put(o, v.m11); put(o, v.m12); put(o, v.m13); put(o, v.m14); put(o, v.m15); put(o, v.m16); put(o, v.m17); put(o, v.m18); put(o, v.m19); put(o, v.m20); put(o, v.m21); put(o, v.m22); put(o, v.m23); put(o, v.m24); put(o, v.m25); put(o, v.m26); put(o, v.m27); put(o, v.m28); put(o, v.m29); put(o, v.m30); put(o, v.m31); put(o, v.m32); put(o, v.m33); put(o, v.m34); put(o, v.m35); put(o, v.m36); put(o, v.m37); put(o, v.m38); put(o, v.m39); put(o, v.m40); put(o, v.m41); put(o, v.m42); put(o, v.m43); put(o, v.m44); put(o, v.m45); put(o, v.m46); put(o, v.m47); put(o, v.m48); put(o, v.m49); put(o, v.m50); put(o, v.m51); put(o, v.m52); put(o, v.m53); put(o, v.m54); put(o, v.m55); put(o, v.m56); put(o, v.m57); put(o, v.m58); put(o, v.m59); put(o, v.m60); put(o, v.m61); put(o, v.m62); put(o, v.m63); put(o, v.m64); put(o, v.m65); put(o, v.m66); put(o, v.m67); put(o, v.m68); put(o, v.m69); put(o, v.m70); put(o, v.m71); put(o, v.m72); put(o, v.m73); put(o, v.m74); put(o, v.m75); put(o, v.m76); put(o, v.m77); put(o, v.m78); put(o, v.m79); put(o, v.m80); put(o, v.m81); put(o, v.m82); put(o, v.m83); put(o, v.m84); put(o, v.m85); put(o, v.m86); put(o, v.m87); put(o, v.m88); put(o, v.m89); put(o, v.m90); put(o, v.m91); put(o, v.m92); put(o, v.m93); put(o, v.m94); put(o, v.m95); put(o, v.m96); put(o, v.m97); put(o, v.m98); put(o, v.m99); put(o, v.m100); put(o, v.m101); put(o, v.m102); put(o, v.m103); put(o, v.m104); put(o, v.m105); put(o, v.m106); put(o, v.m107); put(o, v.m108); put(o, v.m109); put(o, v.m110); put(o, v.m111); put(o, v.m112); put(o, v.m113); put(o, v.m114); put(o, v.m115); put(o, v.m116); put(o, v.m117); put(o, v.m118); put(o, v.m119); put(o, v.m120); put(o, v.m121); put(o, v.m122); put(o, v.m123); put(o, v.m124); put(o, v.m125); put(o, v.m126); put(o, v.m127); put(o, v.m128); put(o, v.m129); put(o, v.m130); put(o, v.m131); put(o, v.m132); put(o, v.m133); put(o, v.m134); put(o, v.m135); put(o, v.m136); put(o, v.m137); put(o, v.m138); put(o, v.m139); }
static void get(In &o, KBIG &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); get(o, v.m4); get(o, v.m5); get(o, v.m6); get(o, v.m7); get(o, v.m8); get(o, v.m9); get(o, v.m10); get(o, v.m11); get(o, v.m12); get(o, v.m13); get(o, v.m14); get(o, v.m15); get(o, v.m16); get(o, v.m17); get(o, v.m18); get(o, v.m19); get(o, v.m20); get(o, v.m21); get(o, v.m22); get(o, v.m23); get(o, v.m24); get(o, v.m25); get(o, v.m26); get(o, v.m27); get(o, v.m28); get(o, v.m29); get(o, v.m30); get(o, v.m31); get(o, v.m32); get(o, v.m33); get(o, v.m34); get(o, v.m35); get(o, v.m36); get(o, v.m37); get(o, v.m38); get(o, v.m39); get(o, v.m40); get(o, v.m41); get(o, v.m42); get(o, v.m43); get(o, v.m44); get(o, v.m45); get(o, v.m46); get(o, v.m47); get(o, v.m48); get(o, v.m49); get(o, v.m50); get(o, v.m51); get(o, v.m52); get(o, v.m53); get(o, v.m54); get(o, v.m55); get(o, v.m56); get(o, v.m57); get(o, v.m58); get(o, v.m59); get(o, v.m60); get(o, v.m61); get(o, v.m62); get(o, v.m63); get(o, v.m64); get(o, v.m65); get(o, v.m66); get(o, v.m67); get(o, v.m68); get(o, v.m69); get(o, v.m70); get(o, v.m71); get(o, v.m72); get(o, v.m73); get(o, v.m74); get(o, v.m75); get(o, v.m76); get(o, v.m77); get(o, v.m78); get(o, v.m79); get(o, v.m80); get(o, v.m81); get(o, v.m82); get(o, v.m83); get(o, v.m84); get(o, v.m85); get(o, v.m86); get(o, v.m87); get(o, v.m88); get(o, v.m89); get(o, v.m90); get(o, v.m91); get(o, v.m92); get(o, v.m93); get(o, v.m94); get(o, v.m95); get(o, v.m96); get(o, v.m97); get(o, v.m98); get(o, v.m99); get(o, v.m100); get(o, v.m101); get(o, v.m102); get(o, v.m103); get(o, v.m104); get(o, v.m105); get(o, v.m106); get(o, v.m107); get(o, v.m108); get(o, v.m109); get(o, v.m110); get(o, v.m111); get(o, v.m112); get(o, v.m113); get(o, v.m114); get(o, v.m115); get(o, v.m116); get(o, v.m117); get(o, v.m118); get(o, v.m119); get(o, v.m120); get(o, v.m121); get(o, v.m122); get(o, v.m123); get(o, v.m124); get(o, v.m125); get(o, v.m126); get(o, v.m127); get(o, v.m128); get(o, v.m129); get(o, v.m130); get(o, v.m131); get(o, v.m132); get(o, v.m133); get(o, v.m134); get(o, v.m135); get(o, v.m136); get(o, v.m137); get(o, v.m138); get(o, v.m139); }
static void put(Flat &o, const KNFI &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KNFI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KNFIF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KNFIF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KNDFI &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KNDFI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KNFFI &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KNFFI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KNIF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KNIF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KNFF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KNFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KNFFF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KNFFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KNFFFI &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); }
static void get(In &o, KNFFFI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); }
static void put(Flat &o, const KNDD &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KNDD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KNCII &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KNCII &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KNFCCS &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); }
static void get(In &o, KNFCCS &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); }
static void put(Flat &o, const KAFF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KAFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KAF3 &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KAF3 &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KADD &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KADD &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KAIII &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KAIII &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KIAF &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KIAF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KFAI &v){ put(o, v.m0); put(o, v.m1); }
static void get(In &o, KFAI &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); }
static void put(Flat &o, const KIAFF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KIAFF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KFAII &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KFAII &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KDAF &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); }
static void get(In &o, KDAF &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); }
static void put(Flat &o, const KAF6 &v){ put(o, v.m0); put(o, v.m1); put(o, v.m2); put(o, v.m3); put(o, v.m4); put(o, v.m5); }
static void get(In &o, KAF6 &v){ memset((void*)&v, 0, sizeof(v)); get(o, v.m0); get(o, v.m1); get(o, v.m2); get(o, v.m3); get(o, v.m4); get(o, v.m5); }
static const SigDef sigDefs[] = { { "c", { "c" } },
	{ "s", { "s" } },
	{ "i", { "i" } },
	{ "l", { "l" } },
	{ "f", { "f" } },
	{ "d", { "d" } },
	{ "b", { "b" } },
	{ "A", { "A" } },
	{ "C", { "C" } },
	{ "P", { "P" } },
	{ "R", { "R" } },
	{ "G", { "G" } },
	{ "U", { "U" } },
	{ "T", { "T" } },
	{ "KI", { "KI" } },
	{ "KF", { "KF" } },
	{ "KII", { "KII" } },
	{ "KFF", { "KFF" } },
	{ "KIF", { "KIF" } },
	{ "KL", { "KL" } },
	{ "KD", { "KD" } },
	{ "KDD", { "KDD" } },
	{ "KLD", { "KLD" } },
	{ "KDL", { "KDL" } },
	{ "KLL", { "KLL" } },
	{ "KIII", { "KIII" } },
	{ "KFFF", { "KFFF" } },
	{ "KFFI", { "KFFI" } },
	{ "KFFFF", { "KFFFF" } },
	{ "KIFIF", { "KIFIF" } },
	{ "KDFF", { "KDFF" } },
	{ "KFFL", { "KFFL" } },
	{ "KC", { "KC" } },
	{ "KCC", { "KCC" } },
	{ "KCSI", { "KCSI" } },
	{ "KSS", { "KSS" } },
	{ "KID", { "KID" } },
	{ "KDDD", { "KDDD" } },
	{ "KIL", { "KIL" } },
	{ "KF6", { "KF6" } },
	{ "KMIX", { "KMIX" } },
	{ "KDI", { "KDI" } },
	{ "KLF", { "KLF" } },
	{ "d", { "c", "s", "i", "l", "f", "d", "b", "c", "s", "i", "l", "f", "d", "b" } },
	{ "v", {  } },
	{ "KBIG", { "KBIG", "i" } },
	{ "KDL", { "KIL", "KDI", "f", "R", "c", "c", "KL", "KI" } },
	{ "KII", { "f", "c", "f", "l", "i", "l", "d", "d", "f", "l", "T", "KDDD" } },
	{ "C", { "KL", "KMIX" } },
	{ "c", { "l", "c", "KIF", "KDI" } },
	{ "KLL", { "d", "KIFIF", "l", "b", "T", "KIFIF" } },
	{ "v", { "C", "KDI", "f", "G", "c", "P" } },
	{ "U", { "f", "l", "d", "f", "i", "i" } },
	{ "v", { "KF6", "d", "KIFIF" } },
	{ "v", { "s", "T", "i", "d", "KCSI", "i", "KSS", "i", "b", "b", "C", "l" } },
	{ "d", { "s", "KC", "KLF", "d", "KIFIF", "KIFIF", "KLL", "s", "KIL", "b", "l", "s" } },
	{ "l", { "A", "P" } },
	{ "v", { "G", "T", "KDL", "KDDD", "T", "b" } },
	{ "U", { "b", "s", "KCC", "b", "l" } },
	{ "f", { "f", "s", "l", "d", "s", "c", "KDDD", "d", "f" } },
	{ "i", { "U", "s", "KD", "f", "d", "s", "KDD" } },
	{ "i", { "KFFFF", "d", "f", "P", "G", "s", "KDD", "l", "i", "KL" } },
	{ "C", { "C", "f", "A" } },
	{ "i", { "c", "i", "i", "KDL", "d", "KFFFF", "KMIX", "KDL", "KIII", "d", "R", "c" } },
	{ "d", { "T" } },
	{ "v", { "G" } },
	{ "s", { "f", "d", "KD", "c", "d", "c", "f" } },
	{ "i", { "l", "l", "f" } },
	{ "f", { "KDL", "C", "s", "d", "KFFF", "l" } },
	{ "d", { "i", "KL" } },
	{ "d", { "f", "l", "d", "d", "s", "f", "U" } },
	{ "s", { "f", "KFFFF", "KII" } },
	{ "v", { "s", "d", "i", "d", "c", "f", "d", "d", "d", "b", "i" } },
	{ "v", { "l", "l", "i" } },
	{ "l", { "l", "s", "i", "f", "f", "i" } },
	{ "f", { "s", "b", "l", "l" } },
	{ "G", {  } },
	{ "f", { "KCC" } },
	{ "d", { "KDI", "i", "G", "C", "f", "R", "KI" } },
	{ "T", { "KII", "KLD", "b", "d" } },
	{ "d", { "s", "c", "f", "d", "l", "l", "d", "c", "d", "l", "KDD", "l" } },
	{ "i", { "i", "KID", "s", "i", "KF6", "l" } },
	{ "l", { "b", "KDDD", "KDL", "c" } },
	{ "l", { "c", "C", "T", "f", "A", "KII", "R", "b", "l", "KIFIF" } },
	{ "f", {  } },
	{ "l", { "l", "s", "s", "f", "f", "f", "l", "c", "c", "KDD", "A" } },
	{ "i", { "d", "f", "d", "s", "f", "b", "G", "C" } },
	{ "c", { "f", "f", "f", "i", "d", "KSS" } },
	{ "i", { "f", "s", "c", "c", "c", "P", "KL" } },
	{ "i", { "c", "KFFFF" } },
	{ "KIII", { "f", "f", "c", "f", "f", "f", "d", "s", "s", "KMIX" } },
	{ "s", { "KIII", "i", "s", "b", "KCC", "f", "l", "KIII", "KIII", "KIFIF", "s", "l" } },
	{ "v", { "c", "i", "f", "f", "l", "R", "c", "f" } },
	{ "i", { "KID", "T", "KCC", "KDFF", "d" } },
	{ "v", { "c", "f", "f", "d", "f", "l", "l", "A" } },
	{ "f", { "l", "i", "d", "c", "c", "T", "d" } },
	{ "KF", { "A", "b", "KCC", "KFFF", "T", "d" } },
	{ "i", { "c", "l", "U", "i", "f", "A", "i", "KCC", "P", "i" } },
	{ "l", { "f", "l", "f", "c", "f", "f", "d", "KIII", "f", "T" } },
	{ "A", { "KC" } },
	{ "KDDD", { "KL", "C", "T", "b", "l", "KLD", "KIF", "c" } },
	{ "l", { "l" } },
	{ "v", { "C", "l", "C" } },
	{ "P", { "KD", "KDI", "l" } },
	{ "KI", { "U" } },
	{ "d", { "f", "i", "l", "i", "f", "d", "i", "c", "C" } },
	{ "G", { "U", "i", "G" } },
	{ "c", { "R", "f", "i", "b", "KFFL", "KDDD", "A" } },
	{ "s", { "R", "d", "C", "A" } },
	{ "i", { "c", "d", "f", "c", "d", "d", "b" } },
	{ "i", { "A", "c", "KLL", "U", "KIL", "KIF", "KFFF" } },
	{ "f", { "i", "d", "d", "d", "i", "f", "d", "c", "b", "KDD" } },
	{ "d", { "P" } },
	{ "f", { "KIF", "KIF" } },
	{ "l", { "b", "A", "l", "P" } },
	{ "KID", { "i", "l", "f", "s", "f", "c", "d", "KFFF", "P", "f" } },
	{ "d", { "T", "b", "l", "b", "l", "d", "d", "KFFI" } },
	{ "d", { "s", "i", "i", "d", "d", "s", "c", "c", "f", "l" } },
	{ "l", { "i", "b", "l", "KDD" } },
	{ "f", { "s", "f", "KC", "T", "KLF", "b", "l", "i", "s", "s" } },
	{ "i", { "l", "b" } },
	{ "i", { "KLF", "KDDD", "G", "s", "KFFL", "c" } },
	{ "v", { "i", "d", "i", "f", "i", "c", "s", "KI", "KF6" } },
	{ "l", { "KID", "KFFF" } },
	{ "i", { "d", "l", "i", "f", "d", "f", "d", "d", "c" } },
	{ "v", { "d", "s", "f", "d", "d", "d", "d", "f", "KCC", "KMIX", "KFFF" } },
	{ "i", { "c", "f", "d", "d", "d", "d", "d", "i", "c" } },
	{ "T", { "KFFI", "b", "f", "A", "s", "c", "KFF", "T", "U", "i" } },
	{ "KNFI", { "KNFI" } },
	{ "KNFIF", { "KNFIF" } },
	{ "KNDFI", { "KNDFI" } },
	{ "KNFFI", { "KNFFI" } },
	{ "KNIF", { "KNIF" } },
	{ "KNFF", { "KNFF" } },
	{ "KNFFF", { "KNFFF" } },
	{ "KNFFFI", { "KNFFFI" } },
	{ "KNDD", { "KNDD" } },
	{ "KNCII", { "KNCII" } },
	{ "KNFCCS", { "KNFCCS" } },
	{ "KAFF", { "KAFF" } },
	{ "KAF3", { "KAF3" } },
	{ "KADD", { "KADD" } },
	{ "KAIII", { "KAIII" } },
	{ "KIAF", { "KIAF" } },
	{ "KFAI", { "KFAI" } },
	{ "KIAFF", { "KIAFF" } },
	{ "KFAII", { "KFAII" } },
	{ "KDAF", { "KDAF" } },
	{ "KAF6", { "KAF6" } },
	{ "KNIF", { "KIAFF", "KFAII", "KNFCCS", "KNFFFI" } },
	{ "KNFF", { "KNFFF", "KADD", "KNFCCS", "f" } },
	{ "KAIII", { "KIAFF", "KNFI", "KNFCCS" } },
	{ "KNFFFI", { "KNFFFI", "KAIII", "KIAF", "KAF6", "KAIII", "KNFFFI" } },
	{ "d", { "KIAF" } },
	{ "KNFFF", { "KDAF", "KNFFFI", "KAF6", "KAFF", "KNFFF" } },
	{ "KNFI", { "KNDFI", "KDAF" } },
	{ "KAFF", { "KNIF", "KNFFFI" } },
	{ "KAIII", { "KNFFFI", "KNDFI", "KNIF", "KIAFF", "KNIF", "KIAFF", "d" } },
	{ "KNCII", { "KNCII", "KNDD", "KFAI", "KAF6", "KNFCCS", "KAF3", "KAIII" } },
	{ "KNFFF", { "d", "KNFCCS", "KFAII", "KNIF", "KAF3", "KIAF", "KNFFFI" } },
	{ "KIAFF", { "i", "KAIII", "i" } },
	{ "KIAFF", { "KFAI", "KNFI", "KAFF", "KAF3", "KNFFFI" } },
	{ "KDAF", { "KNFI", "KNIF", "KADD", "KAIII", "KAFF" } },
	{ "v", { "KNFIF", "KNDD", "KDAF", "KNFCCS", "KNFIF", "i", "KNFFF" } },
	{ "KNFFI", { "KDAF", "KNCII", "KAF3", "KNFFF" } },
	{ "KDAF", { "KFAI", "KIAF", "KNFIF" } },
	{ "KNDFI", { "KIAFF", "KNFCCS", "f", "d" } },
	{ "KNFCCS", { "KAF3", "KNFCCS", "KFAI", "KIAF", "KIAF", "KNFCCS" } },
	{ "KNFIF", { "KAF6" } },
	{ "KIAF", { "i" } },
	{ "i", { "KNFIF", "KNFFI", "KNFFF", "KNDFI" } },
	{ "KNFFI", { "KNFFFI", "KAF3", "KNFI", "KAF3", "KAIII", "KNIF" } },
	{ "KNDD", { "KNDD", "KNFCCS", "KNCII" } },
	{ "KAF6", { "KNFFI", "KNFI" } },
	{ "KAFF", { "KNFCCS", "KNIF", "KNDFI", "KNDD" } },
	{ "KAF6", { "KNDD", "KFAI", "KFAII", "KAF3", "KDAF", "KADD", "KNFF" } },
	{ "KNCII", { "KNCII", "i", "KADD", "KNFFI", "f", "KDAF" } },
	{ "KFAII", { "f", "KNDFI", "KNFF" } },
	{ "d", { "KFAII" } },
	{ "KAIII", { "KFAI", "KDAF", "KNFFF", "KFAII", "d", "KAF3", "KAIII" } },
	{ "KAIII", { "KNFIF", "KAFF" } },
	{ "KNFFI", { "KNFCCS", "KNFFI", "KAF6", "KAIII", "KAF3", "KNFFI" } },
	{ "KNFIF", { "f", "KAFF", "KNFCCS", "KNFFI" } },
	{ "KFAI", { "KNDD", "KDAF", "f", "KNCII", "KFAI", "KNFI", "KNFF" } },
	{ "KAFF", { "KNFF" } },
	{ "KNCII", { "KNFFFI", "KAIII", "KNDD", "KNFF", "KAF6" } },
	{ "KNDFI", { "KNIF", "KNDD", "KIAF" } },
	{ "KAF6", { "KNFFFI", "i", "KNIF" } },
	{ "KDAF", { "KNDFI", "KNFFF", "f", "d", "KNFI", "KNFFF" } } };
static char h0(char a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); }; HostCall c(0, fill); return back(Tag<'c'>(), (char*)0, c.result()); }
static short h1(short a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); }; HostCall c(1, fill); return back(Tag<'s'>(), (short*)0, c.result()); }
static int h2(int a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); }; HostCall c(2, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static long long h3(long long a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); }; HostCall c(3, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static float h4(float a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); }; HostCall c(4, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static double h5(double a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); }; HostCall c(5, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static bool h6(bool a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'b'>(), a0); }; HostCall c(6, fill); return back(Tag<'b'>(), (bool*)0, c.result()); }
static NULLCArray h7(NULLCArray a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'A'>(), a0); }; HostCall c(7, fill); return back(Tag<'A'>(), (NULLCArray*)0, c.result()); }
static NULLCArray h8(NULLCArray a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'C'>(), a0); }; HostCall c(8, fill); return back(Tag<'C'>(), (NULLCArray*)0, c.result()); }
static int* h9(int* a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'P'>(), a0); }; HostCall c(9, fill); return back(Tag<'P'>(), (int**)0, c.result()); }
static NULLCRef h10(NULLCRef a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'R'>(), a0); }; HostCall c(10, fill); return back(Tag<'R'>(), (NULLCRef*)0, c.result()); }
static NULLCFuncPtr h11(NULLCFuncPtr a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'G'>(), a0); }; HostCall c(11, fill); return back(Tag<'G'>(), (NULLCFuncPtr*)0, c.result()); }
static NULLCAutoArray h12(NULLCAutoArray a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'U'>(), a0); }; HostCall c(12, fill); return back(Tag<'U'>(), (NULLCAutoArray*)0, c.result()); }
static unsigned h13(unsigned a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'T'>(), a0); }; HostCall c(13, fill); return back(Tag<'T'>(), (unsigned*)0, c.result()); }
static KI h14(KI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(14, fill); return back(Tag<'K'>(), (KI*)0, c.result()); }
static KF h15(KF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(15, fill); return back(Tag<'K'>(), (KF*)0, c.result()); }
static KII h16(KII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(16, fill); return back(Tag<'K'>(), (KII*)0, c.result()); }
static KFF h17(KFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(17, fill); return back(Tag<'K'>(), (KFF*)0, c.result()); }
static KIF h18(KIF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(18, fill); return back(Tag<'K'>(), (KIF*)0, c.result()); }
static KL h19(KL a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(19, fill); return back(Tag<'K'>(), (KL*)0, c.result()); }
static KD h20(KD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(20, fill); return back(Tag<'K'>(), (KD*)0, c.result()); }
static KDD h21(KDD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(21, fill); return back(Tag<'K'>(), (KDD*)0, c.result()); }
static KLD h22(KLD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(22, fill); return back(Tag<'K'>(), (KLD*)0, c.result()); }
static KDL h23(KDL a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(23, fill); return back(Tag<'K'>(), (KDL*)0, c.result()); }
static KLL h24(KLL a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(24, fill); return back(Tag<'K'>(), (KLL*)0, c.result()); }
static KIII h25(KIII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(25, fill); return back(Tag<'K'>(), (KIII*)0, c.result()); }
static KFFF h26(KFFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(26, fill); return back(Tag<'K'>(), (KFFF*)0, c.result()); }
static KFFI h27(KFFI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(27, fill); return back(Tag<'K'>(), (KFFI*)0, c.result()); }
static KFFFF h28(KFFFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(28, fill); return back(Tag<'K'>(), (KFFFF*)0, c.result()); }
static KIFIF h29(KIFIF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(29, fill); return back(Tag<'K'>(), (KIFIF*)0, c.result()); }
static KDFF h30(KDFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(30, fill); return back(Tag<'K'>(), (KDFF*)0, c.result()); }
static KFFL h31(KFFL a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(31, fill); return back(Tag<'K'>(), (KFFL*)0, c.result()); }
static KC h32(KC a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(32, fill); return back(Tag<'K'>(), (KC*)0, c.result()); }
static KCC h33(KCC a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(33, fill); return back(Tag<'K'>(), (KCC*)0, c.result()); }
static KCSI h34(KCSI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(34, fill); return back(Tag<'K'>(), (KCSI*)0, c.result()); }
static KSS h35(KSS a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(35, fill); return back(Tag<'K'>(), (KSS*)0, c.result()); }
static KID h36(KID a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(36, fill); return back(Tag<'K'>(), (KID*)0, c.result()); }
static KDDD h37(KDDD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(37, fill); return back(Tag<'K'>(), (KDDD*)0, c.result()); }
static KIL h38(KIL a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(38, fill); return back(Tag<'K'>(), (KIL*)0, c.result()); }
static KF6 h39(KF6 a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(39, fill); return back(Tag<'K'>(), (KF6*)0, c.result()); }
static KMIX h40(KMIX a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(40, fill); return back(Tag<'K'>(), (KMIX*)0, c.result()); }
static KDI h41(KDI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(41, fill); return back(Tag<'K'>(), (KDI*)0, c.result()); }
static KLF h42(KLF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(42, fill); return back(Tag<'K'>(), (KLF*)0, c.result()); }
static double h43(char a0, short a1, int a2, long long a3, float a4, double a5, bool a6, char a7, short a8, int a9, long long a10, float a11, double a12, bool a13){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'l'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'b'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'s'>(), a8); arg(f, Tag<'i'>(), a9); arg(f, Tag<'l'>(), a10); arg(f, Tag<'f'>(), a11); arg(f, Tag<'d'>(), a12); arg(f, Tag<'b'>(), a13); }; HostCall c(43, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static void h44(){ Flat f; auto fill = [&](Flat &f){ (void)f;  }; HostCall c(44, fill); c.result(); }
static KBIG h45(KBIG a0, int a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'i'>(), a1); }; HostCall c(45, fill); return back(Tag<'K'>(), (KBIG*)0, c.result()); }
static KDL h46(KIL a0, KDI a1, float a2, NULLCRef a3, char a4, char a5, KL a6, KI a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'R'>(), a3); arg(f, Tag<'c'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'K'>(), a7); }; HostCall c(46, fill); return back(Tag<'K'>(), (KDL*)0, c.result()); }
static KII h47(float a0, char a1, float a2, long long a3, int a4, long long a5, double a6, double a7, float a8, long long a9, unsigned a10, KDDD a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'c'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'l'>(), a3); arg(f, Tag<'i'>(), a4); arg(f, Tag<'l'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'d'>(), a7); arg(f, Tag<'f'>(), a8); arg(f, Tag<'l'>(), a9); arg(f, Tag<'T'>(), a10); arg(f, Tag<'K'>(), a11); }; HostCall c(47, fill); return back(Tag<'K'>(), (KII*)0, c.result()); }
static NULLCArray h48(KL a0, KMIX a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(48, fill); return back(Tag<'C'>(), (NULLCArray*)0, c.result()); }
static char h49(long long a0, char a1, KIF a2, KDI a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'c'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(49, fill); return back(Tag<'c'>(), (char*)0, c.result()); }
static KLL h50(double a0, KIFIF a1, long long a2, bool a3, unsigned a4, KIFIF a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'T'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(50, fill); return back(Tag<'K'>(), (KLL*)0, c.result()); }
static void h51(NULLCArray a0, KDI a1, float a2, NULLCFuncPtr a3, char a4, int* a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'C'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'G'>(), a3); arg(f, Tag<'c'>(), a4); arg(f, Tag<'P'>(), a5); }; HostCall c(51, fill); c.result(); }
static NULLCAutoArray h52(float a0, long long a1, double a2, float a3, int a4, int a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'i'>(), a4); arg(f, Tag<'i'>(), a5); }; HostCall c(52, fill); return back(Tag<'U'>(), (NULLCAutoArray*)0, c.result()); }
static void h53(KF6 a0, double a1, KIFIF a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(53, fill); c.result(); }
static void h54(short a0, unsigned a1, int a2, double a3, KCSI a4, int a5, KSS a6, int a7, bool a8, bool a9, NULLCArray a10, long long a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'T'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'i'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'i'>(), a7); arg(f, Tag<'b'>(), a8); arg(f, Tag<'b'>(), a9); arg(f, Tag<'C'>(), a10); arg(f, Tag<'l'>(), a11); }; HostCall c(54, fill); c.result(); }
static double h55(short a0, KC a1, KLF a2, double a3, KIFIF a4, KIFIF a5, KLL a6, short a7, KIL a8, bool a9, long long a10, short a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'s'>(), a7); arg(f, Tag<'K'>(), a8); arg(f, Tag<'b'>(), a9); arg(f, Tag<'l'>(), a10); arg(f, Tag<'s'>(), a11); }; HostCall c(55, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static long long h56(NULLCArray a0, int* a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'A'>(), a0); arg(f, Tag<'P'>(), a1); }; HostCall c(56, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static void h57(NULLCFuncPtr a0, unsigned a1, KDL a2, KDDD a3, unsigned a4, bool a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'G'>(), a0); arg(f, Tag<'T'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'T'>(), a4); arg(f, Tag<'b'>(), a5); }; HostCall c(57, fill); c.result(); }
static NULLCAutoArray h58(bool a0, short a1, KCC a2, bool a3, long long a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'b'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'l'>(), a4); }; HostCall c(58, fill); return back(Tag<'U'>(), (NULLCAutoArray*)0, c.result()); }
static float h59(float a0, short a1, long long a2, double a3, short a4, char a5, KDDD a6, double a7, float a8){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'s'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'d'>(), a7); arg(f, Tag<'f'>(), a8); }; HostCall c(59, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static int h60(NULLCAutoArray a0, short a1, KD a2, float a3, double a4, short a5, KDD a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'U'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'s'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(60, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static int h61(KFFFF a0, double a1, float a2, int* a3, NULLCFuncPtr a4, short a5, KDD a6, long long a7, int a8, KL a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'P'>(), a3); arg(f, Tag<'G'>(), a4); arg(f, Tag<'s'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'l'>(), a7); arg(f, Tag<'i'>(), a8); arg(f, Tag<'K'>(), a9); }; HostCall c(61, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static NULLCArray h62(NULLCArray a0, float a1, NULLCArray a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'C'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'A'>(), a2); }; HostCall c(62, fill); return back(Tag<'C'>(), (NULLCArray*)0, c.result()); }
static int h63(char a0, int a1, int a2, KDL a3, double a4, KFFFF a5, KMIX a6, KDL a7, KIII a8, double a9, NULLCRef a10, char a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'K'>(), a8); arg(f, Tag<'d'>(), a9); arg(f, Tag<'R'>(), a10); arg(f, Tag<'c'>(), a11); }; HostCall c(63, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static double h64(unsigned a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'T'>(), a0); }; HostCall c(64, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static void h65(NULLCFuncPtr a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'G'>(), a0); }; HostCall c(65, fill); c.result(); }
static short h66(float a0, double a1, KD a2, char a3, double a4, char a5, float a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'c'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'f'>(), a6); }; HostCall c(66, fill); return back(Tag<'s'>(), (short*)0, c.result()); }
static int h67(long long a0, long long a1, float a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'f'>(), a2); }; HostCall c(67, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static float h68(KDL a0, NULLCArray a1, short a2, double a3, KFFF a4, long long a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'C'>(), a1); arg(f, Tag<'s'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'l'>(), a5); }; HostCall c(68, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static double h69(int a0, KL a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(69, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static double h70(float a0, long long a1, double a2, double a3, short a4, float a5, NULLCAutoArray a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'s'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'U'>(), a6); }; HostCall c(70, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static short h71(float a0, KFFFF a1, KII a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(71, fill); return back(Tag<'s'>(), (short*)0, c.result()); }
static void h72(short a0, double a1, int a2, double a3, char a4, float a5, double a6, double a7, double a8, bool a9, int a10){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'c'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'d'>(), a7); arg(f, Tag<'d'>(), a8); arg(f, Tag<'b'>(), a9); arg(f, Tag<'i'>(), a10); }; HostCall c(72, fill); c.result(); }
static void h73(long long a0, long long a1, int a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'i'>(), a2); }; HostCall c(73, fill); c.result(); }
static long long h74(long long a0, short a1, int a2, float a3, float a4, int a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'i'>(), a5); }; HostCall c(74, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static float h75(short a0, bool a1, long long a2, long long a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'b'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'l'>(), a3); }; HostCall c(75, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static NULLCFuncPtr h76(){ Flat f; auto fill = [&](Flat &f){ (void)f;  }; HostCall c(76, fill); return back(Tag<'G'>(), (NULLCFuncPtr*)0, c.result()); }
static float h77(KCC a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(77, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static double h78(KDI a0, int a1, NULLCFuncPtr a2, NULLCArray a3, float a4, NULLCRef a5, KI a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'G'>(), a2); arg(f, Tag<'C'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'R'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(78, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static unsigned h79(KII a0, KLD a1, bool a2, double a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'b'>(), a2); arg(f, Tag<'d'>(), a3); }; HostCall c(79, fill); return back(Tag<'T'>(), (unsigned*)0, c.result()); }
static double h80(short a0, char a1, float a2, double a3, long long a4, long long a5, double a6, char a7, double a8, long long a9, KDD a10, long long a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'c'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'l'>(), a4); arg(f, Tag<'l'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'d'>(), a8); arg(f, Tag<'l'>(), a9); arg(f, Tag<'K'>(), a10); arg(f, Tag<'l'>(), a11); }; HostCall c(80, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static int h81(int a0, KID a1, short a2, int a3, KF6 a4, long long a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'s'>(), a2); arg(f, Tag<'i'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'l'>(), a5); }; HostCall c(81, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static long long h82(bool a0, KDDD a1, KDL a2, char a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'b'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'c'>(), a3); }; HostCall c(82, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static long long h83(char a0, NULLCArray a1, unsigned a2, float a3, NULLCArray a4, KII a5, NULLCRef a6, bool a7, long long a8, KIFIF a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'C'>(), a1); arg(f, Tag<'T'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'A'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'R'>(), a6); arg(f, Tag<'b'>(), a7); arg(f, Tag<'l'>(), a8); arg(f, Tag<'K'>(), a9); }; HostCall c(83, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static float h84(){ Flat f; auto fill = [&](Flat &f){ (void)f;  }; HostCall c(84, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static long long h85(long long a0, short a1, short a2, float a3, float a4, float a5, long long a6, char a7, char a8, KDD a9, NULLCArray a10){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'s'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'l'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'c'>(), a8); arg(f, Tag<'K'>(), a9); arg(f, Tag<'A'>(), a10); }; HostCall c(85, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static int h86(double a0, float a1, double a2, short a3, float a4, bool a5, NULLCFuncPtr a6, NULLCArray a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'s'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'b'>(), a5); arg(f, Tag<'G'>(), a6); arg(f, Tag<'C'>(), a7); }; HostCall c(86, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static char h87(float a0, float a1, float a2, int a3, double a4, KSS a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'i'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(87, fill); return back(Tag<'c'>(), (char*)0, c.result()); }
static int h88(float a0, short a1, char a2, char a3, char a4, int* a5, KL a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'c'>(), a2); arg(f, Tag<'c'>(), a3); arg(f, Tag<'c'>(), a4); arg(f, Tag<'P'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(88, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static int h89(char a0, KFFFF a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(89, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static KIII h90(float a0, float a1, char a2, float a3, float a4, float a5, double a6, short a7, short a8, KMIX a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'c'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'s'>(), a7); arg(f, Tag<'s'>(), a8); arg(f, Tag<'K'>(), a9); }; HostCall c(90, fill); return back(Tag<'K'>(), (KIII*)0, c.result()); }
static short h91(KIII a0, int a1, short a2, bool a3, KCC a4, float a5, long long a6, KIII a7, KIII a8, KIFIF a9, short a10, long long a11){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'s'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'l'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'K'>(), a8); arg(f, Tag<'K'>(), a9); arg(f, Tag<'s'>(), a10); arg(f, Tag<'l'>(), a11); }; HostCall c(91, fill); return back(Tag<'s'>(), (short*)0, c.result()); }
static void h92(char a0, int a1, float a2, float a3, long long a4, NULLCRef a5, char a6, float a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'l'>(), a4); arg(f, Tag<'R'>(), a5); arg(f, Tag<'c'>(), a6); arg(f, Tag<'f'>(), a7); }; HostCall c(92, fill); c.result(); }
static int h93(KID a0, unsigned a1, KCC a2, KDFF a3, double a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'T'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'d'>(), a4); }; HostCall c(93, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static void h94(char a0, float a1, float a2, double a3, float a4, long long a5, long long a6, NULLCArray a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'l'>(), a5); arg(f, Tag<'l'>(), a6); arg(f, Tag<'A'>(), a7); }; HostCall c(94, fill); c.result(); }
static float h95(long long a0, int a1, double a2, char a3, char a4, unsigned a5, double a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'c'>(), a3); arg(f, Tag<'c'>(), a4); arg(f, Tag<'T'>(), a5); arg(f, Tag<'d'>(), a6); }; HostCall c(95, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static KF h96(NULLCArray a0, bool a1, KCC a2, KFFF a3, unsigned a4, double a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'A'>(), a0); arg(f, Tag<'b'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'T'>(), a4); arg(f, Tag<'d'>(), a5); }; HostCall c(96, fill); return back(Tag<'K'>(), (KF*)0, c.result()); }
static int h97(char a0, long long a1, NULLCAutoArray a2, int a3, float a4, NULLCArray a5, int a6, KCC a7, int* a8, int a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'U'>(), a2); arg(f, Tag<'i'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'A'>(), a5); arg(f, Tag<'i'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'P'>(), a8); arg(f, Tag<'i'>(), a9); }; HostCall c(97, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static long long h98(float a0, long long a1, float a2, char a3, float a4, float a5, double a6, KIII a7, float a8, unsigned a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'c'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'f'>(), a8); arg(f, Tag<'T'>(), a9); }; HostCall c(98, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static NULLCArray h99(KC a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(99, fill); return back(Tag<'A'>(), (NULLCArray*)0, c.result()); }
static KDDD h100(KL a0, NULLCArray a1, unsigned a2, bool a3, long long a4, KLD a5, KIF a6, char a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'C'>(), a1); arg(f, Tag<'T'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'l'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'c'>(), a7); }; HostCall c(100, fill); return back(Tag<'K'>(), (KDDD*)0, c.result()); }
static long long h101(long long a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); }; HostCall c(101, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static void h102(NULLCArray a0, long long a1, NULLCArray a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'C'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'C'>(), a2); }; HostCall c(102, fill); c.result(); }
static int* h103(KD a0, KDI a1, long long a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'l'>(), a2); }; HostCall c(103, fill); return back(Tag<'P'>(), (int**)0, c.result()); }
static KI h104(NULLCAutoArray a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'U'>(), a0); }; HostCall c(104, fill); return back(Tag<'K'>(), (KI*)0, c.result()); }
static double h105(float a0, int a1, long long a2, int a3, float a4, double a5, int a6, char a7, NULLCArray a8){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'i'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'i'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'C'>(), a8); }; HostCall c(105, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static NULLCFuncPtr h106(NULLCAutoArray a0, int a1, NULLCFuncPtr a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'U'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'G'>(), a2); }; HostCall c(106, fill); return back(Tag<'G'>(), (NULLCFuncPtr*)0, c.result()); }
static char h107(NULLCRef a0, float a1, int a2, bool a3, KFFL a4, KDDD a5, NULLCArray a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'R'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'A'>(), a6); }; HostCall c(107, fill); return back(Tag<'c'>(), (char*)0, c.result()); }
static short h108(NULLCRef a0, double a1, NULLCArray a2, NULLCArray a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'R'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'C'>(), a2); arg(f, Tag<'A'>(), a3); }; HostCall c(108, fill); return back(Tag<'s'>(), (short*)0, c.result()); }
static int h109(char a0, double a1, float a2, char a3, double a4, double a5, bool a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'c'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'b'>(), a6); }; HostCall c(109, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static int h110(NULLCArray a0, char a1, KLL a2, NULLCAutoArray a3, KIL a4, KIF a5, KFFF a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'A'>(), a0); arg(f, Tag<'c'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'U'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(110, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static float h111(int a0, double a1, double a2, double a3, int a4, float a5, double a6, char a7, bool a8, KDD a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'i'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'b'>(), a8); arg(f, Tag<'K'>(), a9); }; HostCall c(111, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static double h112(int* a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'P'>(), a0); }; HostCall c(112, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static float h113(KIF a0, KIF a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(113, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static long long h114(bool a0, NULLCArray a1, long long a2, int* a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'b'>(), a0); arg(f, Tag<'A'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'P'>(), a3); }; HostCall c(114, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static KID h115(int a0, long long a1, float a2, short a3, float a4, char a5, double a6, KFFF a7, int* a8, float a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'s'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'P'>(), a8); arg(f, Tag<'f'>(), a9); }; HostCall c(115, fill); return back(Tag<'K'>(), (KID*)0, c.result()); }
static double h116(unsigned a0, bool a1, long long a2, bool a3, long long a4, double a5, double a6, KFFI a7){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'T'>(), a0); arg(f, Tag<'b'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'b'>(), a3); arg(f, Tag<'l'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'K'>(), a7); }; HostCall c(116, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static double h117(short a0, int a1, int a2, double a3, double a4, short a5, char a6, char a7, float a8, long long a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'s'>(), a5); arg(f, Tag<'c'>(), a6); arg(f, Tag<'c'>(), a7); arg(f, Tag<'f'>(), a8); arg(f, Tag<'l'>(), a9); }; HostCall c(117, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static long long h118(int a0, bool a1, long long a2, KDD a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'b'>(), a1); arg(f, Tag<'l'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(118, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static float h119(short a0, float a1, KC a2, unsigned a3, KLF a4, bool a5, long long a6, int a7, short a8, short a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'s'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'T'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'b'>(), a5); arg(f, Tag<'l'>(), a6); arg(f, Tag<'i'>(), a7); arg(f, Tag<'s'>(), a8); arg(f, Tag<'s'>(), a9); }; HostCall c(119, fill); return back(Tag<'f'>(), (float*)0, c.result()); }
static int h120(long long a0, bool a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'l'>(), a0); arg(f, Tag<'b'>(), a1); }; HostCall c(120, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static int h121(KLF a0, KDDD a1, NULLCFuncPtr a2, short a3, KFFL a4, char a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'G'>(), a2); arg(f, Tag<'s'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'c'>(), a5); }; HostCall c(121, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static void h122(int a0, double a1, int a2, float a3, int a4, char a5, short a6, KI a7, KF6 a8){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'d'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'i'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'s'>(), a6); arg(f, Tag<'K'>(), a7); arg(f, Tag<'K'>(), a8); }; HostCall c(122, fill); c.result(); }
static long long h123(KID a0, KFFF a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(123, fill); return back(Tag<'l'>(), (long long*)0, c.result()); }
static int h124(double a0, long long a1, int a2, float a3, double a4, float a5, double a6, double a7, char a8){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); arg(f, Tag<'l'>(), a1); arg(f, Tag<'i'>(), a2); arg(f, Tag<'f'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'f'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'d'>(), a7); arg(f, Tag<'c'>(), a8); }; HostCall c(124, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static void h125(double a0, short a1, float a2, double a3, double a4, double a5, double a6, float a7, KCC a8, KMIX a9, KFFF a10){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); arg(f, Tag<'s'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'f'>(), a7); arg(f, Tag<'K'>(), a8); arg(f, Tag<'K'>(), a9); arg(f, Tag<'K'>(), a10); }; HostCall c(125, fill); c.result(); }
static int h126(char a0, float a1, double a2, double a3, double a4, double a5, double a6, int a7, char a8){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'c'>(), a0); arg(f, Tag<'f'>(), a1); arg(f, Tag<'d'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'d'>(), a5); arg(f, Tag<'d'>(), a6); arg(f, Tag<'i'>(), a7); arg(f, Tag<'c'>(), a8); }; HostCall c(126, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static unsigned h127(KFFI a0, bool a1, float a2, NULLCArray a3, short a4, char a5, KFF a6, unsigned a7, NULLCAutoArray a8, int a9){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'b'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'A'>(), a3); arg(f, Tag<'s'>(), a4); arg(f, Tag<'c'>(), a5); arg(f, Tag<'K'>(), a6); arg(f, Tag<'T'>(), a7); arg(f, Tag<'U'>(), a8); arg(f, Tag<'i'>(), a9); }; HostCall c(127, fill); return back(Tag<'T'>(), (unsigned*)0, c.result()); }
static KNFI h128(KNFI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(128, fill); return back(Tag<'K'>(), (KNFI*)0, c.result()); }
static KNFIF h129(KNFIF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(129, fill); return back(Tag<'K'>(), (KNFIF*)0, c.result()); }
static KNDFI h130(KNDFI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(130, fill); return back(Tag<'K'>(), (KNDFI*)0, c.result()); }
static KNFFI h131(KNFFI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(131, fill); return back(Tag<'K'>(), (KNFFI*)0, c.result()); }
static KNIF h132(KNIF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(132, fill); return back(Tag<'K'>(), (KNIF*)0, c.result()); }
static KNFF h133(KNFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(133, fill); return back(Tag<'K'>(), (KNFF*)0, c.result()); }
static KNFFF h134(KNFFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(134, fill); return back(Tag<'K'>(), (KNFFF*)0, c.result()); }
static KNFFFI h135(KNFFFI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(135, fill); return back(Tag<'K'>(), (KNFFFI*)0, c.result()); }
static KNDD h136(KNDD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(136, fill); return back(Tag<'K'>(), (KNDD*)0, c.result()); }
static KNCII h137(KNCII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(137, fill); return back(Tag<'K'>(), (KNCII*)0, c.result()); }
static KNFCCS h138(KNFCCS a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(138, fill); return back(Tag<'K'>(), (KNFCCS*)0, c.result()); }
static KAFF h139(KAFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(139, fill); return back(Tag<'K'>(), (KAFF*)0, c.result()); }
static KAF3 h140(KAF3 a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(140, fill); return back(Tag<'K'>(), (KAF3*)0, c.result()); }
static KADD h141(KADD a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(141, fill); return back(Tag<'K'>(), (KADD*)0, c.result()); }
static KAIII h142(KAIII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(142, fill); return back(Tag<'K'>(), (KAIII*)0, c.result()); }
static KIAF h143(KIAF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(143, fill); return back(Tag<'K'>(), (KIAF*)0, c.result()); }
static KFAI h144(KFAI a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(144, fill); return back(Tag<'K'>(), (KFAI*)0, c.result()); }
static KIAFF h145(KIAFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(145, fill); return back(Tag<'K'>(), (KIAFF*)0, c.result()); }
static KFAII h146(KFAII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(146, fill); return back(Tag<'K'>(), (KFAII*)0, c.result()); }
static KDAF h147(KDAF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(147, fill); return back(Tag<'K'>(), (KDAF*)0, c.result()); }
static KAF6 h148(KAF6 a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(148, fill); return back(Tag<'K'>(), (KAF6*)0, c.result()); }
static KNIF h149(KIAFF a0, KFAII a1, KNFCCS a2, KNFFFI a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(149, fill); return back(Tag<'K'>(), (KNIF*)0, c.result()); }
static KNFF h150(KNFFF a0, KADD a1, KNFCCS a2, float a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'f'>(), a3); }; HostCall c(150, fill); return back(Tag<'K'>(), (KNFF*)0, c.result()); }
static KAIII h151(KIAFF a0, KNFI a1, KNFCCS a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(151, fill); return back(Tag<'K'>(), (KAIII*)0, c.result()); }
static KNFFFI h152(KNFFFI a0, KAIII a1, KIAF a2, KAF6 a3, KAIII a4, KNFFFI a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(152, fill); return back(Tag<'K'>(), (KNFFFI*)0, c.result()); }
static double h153(KIAF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(153, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static KNFFF h154(KDAF a0, KNFFFI a1, KAF6 a2, KAFF a3, KNFFF a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); }; HostCall c(154, fill); return back(Tag<'K'>(), (KNFFF*)0, c.result()); }
static KNFI h155(KNDFI a0, KDAF a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(155, fill); return back(Tag<'K'>(), (KNFI*)0, c.result()); }
static KAFF h156(KNIF a0, KNFFFI a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(156, fill); return back(Tag<'K'>(), (KAFF*)0, c.result()); }
static KAIII h157(KNFFFI a0, KNDFI a1, KNIF a2, KIAFF a3, KNIF a4, KIAFF a5, double a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'d'>(), a6); }; HostCall c(157, fill); return back(Tag<'K'>(), (KAIII*)0, c.result()); }
static KNCII h158(KNCII a0, KNDD a1, KFAI a2, KAF6 a3, KNFCCS a4, KAF3 a5, KAIII a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(158, fill); return back(Tag<'K'>(), (KNCII*)0, c.result()); }
static KNFFF h159(double a0, KNFCCS a1, KFAII a2, KNIF a3, KAF3 a4, KIAF a5, KNFFFI a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'d'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(159, fill); return back(Tag<'K'>(), (KNFFF*)0, c.result()); }
static KIAFF h160(int a0, KAIII a1, int a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'i'>(), a2); }; HostCall c(160, fill); return back(Tag<'K'>(), (KIAFF*)0, c.result()); }
static KIAFF h161(KFAI a0, KNFI a1, KAFF a2, KAF3 a3, KNFFFI a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); }; HostCall c(161, fill); return back(Tag<'K'>(), (KIAFF*)0, c.result()); }
static KDAF h162(KNFI a0, KNIF a1, KADD a2, KAIII a3, KAFF a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); }; HostCall c(162, fill); return back(Tag<'K'>(), (KDAF*)0, c.result()); }
static void h163(KNFIF a0, KNDD a1, KDAF a2, KNFCCS a3, KNFIF a4, int a5, KNFFF a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'i'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(163, fill); c.result(); }
static KNFFI h164(KDAF a0, KNCII a1, KAF3 a2, KNFFF a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(164, fill); return back(Tag<'K'>(), (KNFFI*)0, c.result()); }
static KDAF h165(KFAI a0, KIAF a1, KNFIF a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(165, fill); return back(Tag<'K'>(), (KDAF*)0, c.result()); }
static KNDFI h166(KIAFF a0, KNFCCS a1, float a2, double a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'d'>(), a3); }; HostCall c(166, fill); return back(Tag<'K'>(), (KNDFI*)0, c.result()); }
static KNFCCS h167(KAF3 a0, KNFCCS a1, KFAI a2, KIAF a3, KIAF a4, KNFCCS a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(167, fill); return back(Tag<'K'>(), (KNFCCS*)0, c.result()); }
static KNFIF h168(KAF6 a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(168, fill); return back(Tag<'K'>(), (KNFIF*)0, c.result()); }
static KIAF h169(int a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'i'>(), a0); }; HostCall c(169, fill); return back(Tag<'K'>(), (KIAF*)0, c.result()); }
static int h170(KNFIF a0, KNFFI a1, KNFFF a2, KNDFI a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(170, fill); return back(Tag<'i'>(), (int*)0, c.result()); }
static KNFFI h171(KNFFFI a0, KAF3 a1, KNFI a2, KAF3 a3, KAIII a4, KNIF a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(171, fill); return back(Tag<'K'>(), (KNFFI*)0, c.result()); }
static KNDD h172(KNDD a0, KNFCCS a1, KNCII a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(172, fill); return back(Tag<'K'>(), (KNDD*)0, c.result()); }
static KAF6 h173(KNFFI a0, KNFI a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(173, fill); return back(Tag<'K'>(), (KAF6*)0, c.result()); }
static KAFF h174(KNFCCS a0, KNIF a1, KNDFI a2, KNDD a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(174, fill); return back(Tag<'K'>(), (KAFF*)0, c.result()); }
static KAF6 h175(KNDD a0, KFAI a1, KFAII a2, KAF3 a3, KDAF a4, KADD a5, KNFF a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(175, fill); return back(Tag<'K'>(), (KAF6*)0, c.result()); }
static KNCII h176(KNCII a0, int a1, KADD a2, KNFFI a3, float a4, KDAF a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'f'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(176, fill); return back(Tag<'K'>(), (KNCII*)0, c.result()); }
static KFAII h177(float a0, KNDFI a1, KNFF a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(177, fill); return back(Tag<'K'>(), (KFAII*)0, c.result()); }
static double h178(KFAII a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(178, fill); return back(Tag<'d'>(), (double*)0, c.result()); }
static KAIII h179(KFAI a0, KDAF a1, KNFFF a2, KFAII a3, double a4, KAF3 a5, KAIII a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'d'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(179, fill); return back(Tag<'K'>(), (KAIII*)0, c.result()); }
static KAIII h180(KNFIF a0, KAFF a1){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); }; HostCall c(180, fill); return back(Tag<'K'>(), (KAIII*)0, c.result()); }
static KNFFI h181(KNFCCS a0, KNFFI a1, KAF6 a2, KAIII a3, KAF3 a4, KNFFI a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(181, fill); return back(Tag<'K'>(), (KNFFI*)0, c.result()); }
static KNFIF h182(float a0, KAFF a1, KNFCCS a2, KNFFI a3){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'f'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); }; HostCall c(182, fill); return back(Tag<'K'>(), (KNFIF*)0, c.result()); }
static KFAI h183(KNDD a0, KDAF a1, float a2, KNCII a3, KFAI a4, KNFI a5, KNFF a6){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); arg(f, Tag<'K'>(), a6); }; HostCall c(183, fill); return back(Tag<'K'>(), (KFAI*)0, c.result()); }
static KAFF h184(KNFF a0){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); }; HostCall c(184, fill); return back(Tag<'K'>(), (KAFF*)0, c.result()); }
static KNCII h185(KNFFFI a0, KAIII a1, KNDD a2, KNFF a3, KAF6 a4){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); arg(f, Tag<'K'>(), a3); arg(f, Tag<'K'>(), a4); }; HostCall c(185, fill); return back(Tag<'K'>(), (KNCII*)0, c.result()); }
static KNDFI h186(KNIF a0, KNDD a1, KIAF a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(186, fill); return back(Tag<'K'>(), (KNDFI*)0, c.result()); }
static KAF6 h187(KNFFFI a0, int a1, KNIF a2){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'i'>(), a1); arg(f, Tag<'K'>(), a2); }; HostCall c(187, fill); return back(Tag<'K'>(), (KAF6*)0, c.result()); }
static KDAF h188(KNDFI a0, KNFFF a1, float a2, double a3, KNFI a4, KNFFF a5){ Flat f; auto fill = [&](Flat &f){ (void)f; arg(f, Tag<'K'>(), a0); arg(f, Tag<'K'>(), a1); arg(f, Tag<'f'>(), a2); arg(f, Tag<'d'>(), a3); arg(f, Tag<'K'>(), a4); arg(f, Tag<'K'>(), a5); }; HostCall c(188, fill); return back(Tag<'K'>(), (KDAF*)0, c.result()); }
static nullres s0(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s1(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s2(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s3(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s4(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s5(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s6(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'b'>(), (bool*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s7(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s8(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'C'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s9(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'P'>(), (int**)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s10(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'R'>(), (NULLCRef*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s11(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s12(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s13(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'T'>(), (unsigned*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s14(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s15(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s16(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s17(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s18(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s19(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KL a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s20(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s21(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s22(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KLD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s23(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDL a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s24(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KLL a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s25(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s26(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s27(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s28(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3); }
static nullres s29(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIFIF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3); }
static nullres s30(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s31(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFL a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s32(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KC a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s33(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KCC a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s34(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KCSI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s35(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KSS a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s36(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KID a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s37(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDDD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s38(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIL a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s39(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KF6 a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5); }
static nullres s40(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KMIX a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a0.m6) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a0.m6); }
static nullres s41(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s42(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KLF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s43(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'l'>(), (long long*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'b'>(), (bool*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'s'>(), (short*)0); auto a9 = val(in, Tag<'i'>(), (int*)0); auto a10 = val(in, Tag<'l'>(), (long long*)0); auto a11 = val(in, Tag<'f'>(), (float*)0); auto a12 = val(in, Tag<'d'>(), (double*)0); auto a13 = val(in, Tag<'b'>(), (bool*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); }
static nullres s44(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold;  hold.off(); return name ? nullcRunFunction(name) : nullcCallFunction(*ptr); }
static nullres s45(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KBIG a0; get(in, a0); auto a1 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a0.m6, a0.m7, a0.m8, a0.m9, a0.m10, a0.m11, a0.m12, a0.m13, a0.m14, a0.m15, a0.m16, a0.m17, a0.m18, a0.m19, a0.m20, a0.m21, a0.m22, a0.m23, a0.m24, a0.m25, a0.m26, a0.m27, a0.m28, a0.m29, a0.m30, a0.m31, a0.m32, a0.m33, a0.m34, a0.m35, a0.m36, a0.m37, a0.m38, a0.m39, a0.m40, a0.m41, a0.m42, a0.m43, a0.m44, a0.m45, a0.m46, a0.m47, a0.m48, a0.m49, a0.m50, a0.m51, a0.m52, a0.m53, a0.m54, a0.m55, a0.m56, a0.m57, a0.m58, a0.m59, a0.m60, a0.m61, a0.m62, a0.m63, a0.m64, a0.m65, a0.m66, a0.m67, a0.m68, a0.m69, a0.m70, a0.m71, a0.m72, a0.m73, a0.m74, a0.m75, a0.m76, a0.m77, a0.m78, a0.m79, a0.m80, a0.m81, a0.m82, a0.m83, a0.m84, a0.m85, a0.m86, a0.m87, a0.m88, a0.m89, a0.m90, a0.m91, a0.m92, a0.m93, a0.m94, a0.m95, a0.m96, a0.m97, a0.m98, a0.m99, a0.m100, a0.m101, a0.m102, a0.m103, a0.m104, a0.m105, a0.m106, a0.m107, a0.m108, a0.m109, a0.m110, a0.m111, a0.m112, a0.m113, a0.m114, a0.m115, a0.m116, a0.m117, a0.m118, a0.m119, a0.m120, a0.m121, a0.m122, a0.m123, a0.m124, a0.m125, a0.m126, a0.m127, a0.m128, a0.m129, a0.m130, a0.m131, a0.m132, a0.m133, a0.m134, a0.m135, a0.m136, a0.m137, a0.m138, a0.m139, a1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a0.m6, a0.m7, a0.m8, a0.m9, a0.m10, a0.m11, a0.m12, a0.m13, a0.m14, a0.m15, a0.m16, a0.m17, a0.m18, a0.m19, a0.m20, a0.m21, a0.m22, a0.m23, a0.m24, a0.m25, a0.m26, a0.m27, a0.m28, a0.m29, a0.m30, a0.m31, a0.m32, a0.m33, a0.m34, a0.m35, a0.m36, a0.m37, a0.m38, a0.m39, a0.m40, a0.m41, a0.m42, a0.m43, a0.m44, a0.m45, a0.m46, a0.m47, a0.m48, a0.m49, a0.m50, a0.m51, a0.m52, a0.m53, a0.m54, a0.m55, a0.m56, a0.m57, a0.m58, a0.m59, a0.m60, a0.m61, a0.m62, a0.m63, a0.m64, a0.m65, a0.m66, a0.m67, a0.m68, a0.m69, a0.m70, a0.m71, a0.m72, a0.m73, a0.m74, a0.m75, a0.m76, a0.m77, a0.m78, a0.m79, a0.m80, a0.m81, a0.m82, a0.m83, a0.m84, a0.m85, a0.m86, a0.m87, a0.m88, a0.m89, a0.m90, a0.m91, a0.m92, a0.m93, a0.m94, a0.m95, a0.m96, a0.m97, a0.m98, a0.m99, a0.m100, a0.m101, a0.m102, a0.m103, a0.m104, a0.m105, a0.m106, a0.m107, a0.m108, a0.m109, a0.m110, a0.m111, a0.m112, a0.m113, a0.m114, a0.m115, a0.m116, a0.m117, a0.m118, a0.m119, a0.m120, a0.m121, a0.m122, a0.m123, a0.m124, a0.m125, a0.m126, a0.m127, a0.m128, a0.m129, a0.m130, a0.m131, a0.m132, a0.m133, a0.m134, a0.m135, a0.m136, a0.m137, a0.m138, a0.m139, a1); }
static nullres s46(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIL a0; get(in, a0); KDI a1; get(in, a1); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a4 = val(in, Tag<'c'>(), (char*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); KL a6; get(in, a6); KI a7; get(in, a7); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2, a3, a4, a5, a6.m0, a7.m0) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2, a3, a4, a5, a6.m0, a7.m0); }
static nullres s47(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'c'>(), (char*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'l'>(), (long long*)0); auto a4 = val(in, Tag<'i'>(), (int*)0); auto a5 = val(in, Tag<'l'>(), (long long*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'d'>(), (double*)0); auto a8 = val(in, Tag<'f'>(), (float*)0); auto a9 = val(in, Tag<'l'>(), (long long*)0); auto a10 = val(in, Tag<'T'>(), (unsigned*)0); KDDD a11; get(in, a11); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11.m0, a11.m1, a11.m2) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11.m0, a11.m1, a11.m2); }
static nullres s48(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KL a0; get(in, a0); KMIX a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a1.m0, a1.m1, a1.m2, a1.m3, a1.m4, a1.m5, a1.m6) : nullcCallFunction(*ptr, a0.m0, a1.m0, a1.m1, a1.m2, a1.m3, a1.m4, a1.m5, a1.m6); }
static nullres s49(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'c'>(), (char*)0); KIF a2; get(in, a2); KDI a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1) : nullcCallFunction(*ptr, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1); }
static nullres s50(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); KIFIF a1; get(in, a1); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'b'>(), (bool*)0); auto a4 = val(in, Tag<'T'>(), (unsigned*)0); KIFIF a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2, a3, a4, a5.m0, a5.m1, a5.m2, a5.m3) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2, a3, a4, a5.m0, a5.m1, a5.m2, a5.m3); }
static nullres s51(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'C'>(), (NULLCArray*)0); KDI a1; get(in, a1); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a4 = val(in, Tag<'c'>(), (char*)0); auto a5 = val(in, Tag<'P'>(), (int**)0); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a2, a3, a4, a5) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a2, a3, a4, a5); }
static nullres s52(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'i'>(), (int*)0); auto a5 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5); }
static nullres s53(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KF6 a0; get(in, a0); auto a1 = val(in, Tag<'d'>(), (double*)0); KIFIF a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a1, a2.m0, a2.m1, a2.m2, a2.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5, a1, a2.m0, a2.m1, a2.m2, a2.m3); }
static nullres s54(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'T'>(), (unsigned*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); KCSI a4; get(in, a4); auto a5 = val(in, Tag<'i'>(), (int*)0); KSS a6; get(in, a6); auto a7 = val(in, Tag<'i'>(), (int*)0); auto a8 = val(in, Tag<'b'>(), (bool*)0); auto a9 = val(in, Tag<'b'>(), (bool*)0); auto a10 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a11 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5, a6.m0, a6.m1, a7, a8, a9, a10, a11) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5, a6.m0, a6.m1, a7, a8, a9, a10, a11); }
static nullres s55(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); KC a1; get(in, a1); KLF a2; get(in, a2); auto a3 = val(in, Tag<'d'>(), (double*)0); KIFIF a4; get(in, a4); KIFIF a5; get(in, a5); KLL a6; get(in, a6); auto a7 = val(in, Tag<'s'>(), (short*)0); KIL a8; get(in, a8); auto a9 = val(in, Tag<'b'>(), (bool*)0); auto a10 = val(in, Tag<'l'>(), (long long*)0); auto a11 = val(in, Tag<'s'>(), (short*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a2.m0, a2.m1, a3, a4.m0, a4.m1, a4.m2, a4.m3, a5.m0, a5.m1, a5.m2, a5.m3, a6.m0, a6.m1, a7, a8.m0, a8.m1, a9, a10, a11) : nullcCallFunction(*ptr, a0, a1.m0, a2.m0, a2.m1, a3, a4.m0, a4.m1, a4.m2, a4.m3, a5.m0, a5.m1, a5.m2, a5.m3, a6.m0, a6.m1, a7, a8.m0, a8.m1, a9, a10, a11); }
static nullres s56(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a1 = val(in, Tag<'P'>(), (int**)0); hold.off(); return name ? nullcRunFunction(name, a0, a1) : nullcCallFunction(*ptr, a0, a1); }
static nullres s57(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a1 = val(in, Tag<'T'>(), (unsigned*)0); KDL a2; get(in, a2); KDDD a3; get(in, a3); auto a4 = val(in, Tag<'T'>(), (unsigned*)0); auto a5 = val(in, Tag<'b'>(), (bool*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5) : nullcCallFunction(*ptr, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5); }
static nullres s58(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'b'>(), (bool*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); KCC a2; get(in, a2); auto a3 = val(in, Tag<'b'>(), (bool*)0); auto a4 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a2.m1, a3, a4) : nullcCallFunction(*ptr, a0, a1, a2.m0, a2.m1, a3, a4); }
static nullres s59(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'s'>(), (short*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); KDDD a6; get(in, a6); auto a7 = val(in, Tag<'d'>(), (double*)0); auto a8 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6.m0, a6.m1, a6.m2, a7, a8) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6.m0, a6.m1, a6.m2, a7, a8); }
static nullres s60(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); KD a2; get(in, a2); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'s'>(), (short*)0); KDD a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a3, a4, a5, a6.m0, a6.m1) : nullcCallFunction(*ptr, a0, a1, a2.m0, a3, a4, a5, a6.m0, a6.m1); }
static nullres s61(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFFF a0; get(in, a0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'P'>(), (int**)0); auto a4 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a5 = val(in, Tag<'s'>(), (short*)0); KDD a6; get(in, a6); auto a7 = val(in, Tag<'l'>(), (long long*)0); auto a8 = val(in, Tag<'i'>(), (int*)0); KL a9; get(in, a9); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1, a2, a3, a4, a5, a6.m0, a6.m1, a7, a8, a9.m0) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1, a2, a3, a4, a5, a6.m0, a6.m1, a7, a8, a9.m0); }
static nullres s62(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2) : nullcCallFunction(*ptr, a0, a1, a2); }
static nullres s63(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); KDL a3; get(in, a3); auto a4 = val(in, Tag<'d'>(), (double*)0); KFFFF a5; get(in, a5); KMIX a6; get(in, a6); KDL a7; get(in, a7); KIII a8; get(in, a8); auto a9 = val(in, Tag<'d'>(), (double*)0); auto a10 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a11 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3.m0, a3.m1, a4, a5.m0, a5.m1, a5.m2, a5.m3, a6.m0, a6.m1, a6.m2, a6.m3, a6.m4, a6.m5, a6.m6, a7.m0, a7.m1, a8.m0, a8.m1, a8.m2, a9, a10, a11) : nullcCallFunction(*ptr, a0, a1, a2, a3.m0, a3.m1, a4, a5.m0, a5.m1, a5.m2, a5.m3, a6.m0, a6.m1, a6.m2, a6.m3, a6.m4, a6.m5, a6.m6, a7.m0, a7.m1, a8.m0, a8.m1, a8.m2, a9, a10, a11); }
static nullres s64(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'T'>(), (unsigned*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s65(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s66(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); KD a2; get(in, a2); auto a3 = val(in, Tag<'c'>(), (char*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); auto a6 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a3, a4, a5, a6) : nullcCallFunction(*ptr, a0, a1, a2.m0, a3, a4, a5, a6); }
static nullres s67(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2) : nullcCallFunction(*ptr, a0, a1, a2); }
static nullres s68(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDL a0; get(in, a0); auto a1 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a2 = val(in, Tag<'s'>(), (short*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); KFFF a4; get(in, a4); auto a5 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5); }
static nullres s69(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); KL a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0) : nullcCallFunction(*ptr, a0, a1.m0); }
static nullres s70(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'s'>(), (short*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6); }
static nullres s71(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); KFFFF a1; get(in, a1); KII a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1); }
static nullres s72(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'c'>(), (char*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'d'>(), (double*)0); auto a8 = val(in, Tag<'d'>(), (double*)0); auto a9 = val(in, Tag<'b'>(), (bool*)0); auto a10 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
static nullres s73(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2) : nullcCallFunction(*ptr, a0, a1, a2); }
static nullres s74(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5); }
static nullres s75(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'b'>(), (bool*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3) : nullcCallFunction(*ptr, a0, a1, a2, a3); }
static nullres s76(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold;  hold.off(); return name ? nullcRunFunction(name) : nullcCallFunction(*ptr); }
static nullres s77(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KCC a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s78(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDI a0; get(in, a0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a3 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'R'>(), (NULLCRef*)0); KI a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1, a2, a3, a4, a5, a6.m0) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1, a2, a3, a4, a5, a6.m0); }
static nullres s79(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KII a0; get(in, a0); KLD a1; get(in, a1); auto a2 = val(in, Tag<'b'>(), (bool*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2, a3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2, a3); }
static nullres s80(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'c'>(), (char*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'l'>(), (long long*)0); auto a5 = val(in, Tag<'l'>(), (long long*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'d'>(), (double*)0); auto a9 = val(in, Tag<'l'>(), (long long*)0); KDD a10; get(in, a10); auto a11 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10.m0, a10.m1, a11) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10.m0, a10.m1, a11); }
static nullres s81(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); KID a1; get(in, a1); auto a2 = val(in, Tag<'s'>(), (short*)0); auto a3 = val(in, Tag<'i'>(), (int*)0); KF6 a4; get(in, a4); auto a5 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a2, a3, a4.m0, a4.m1, a4.m2, a4.m3, a4.m4, a4.m5, a5) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a2, a3, a4.m0, a4.m1, a4.m2, a4.m3, a4.m4, a4.m5, a5); }
static nullres s82(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'b'>(), (bool*)0); KDDD a1; get(in, a1); KDL a2; get(in, a2); auto a3 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3); }
static nullres s83(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a2 = val(in, Tag<'T'>(), (unsigned*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'A'>(), (NULLCArray*)0); KII a5; get(in, a5); auto a6 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a7 = val(in, Tag<'b'>(), (bool*)0); auto a8 = val(in, Tag<'l'>(), (long long*)0); KIFIF a9; get(in, a9); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5.m0, a5.m1, a6, a7, a8, a9.m0, a9.m1, a9.m2, a9.m3) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5.m0, a5.m1, a6, a7, a8, a9.m0, a9.m1, a9.m2, a9.m3); }
static nullres s84(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold;  hold.off(); return name ? nullcRunFunction(name) : nullcCallFunction(*ptr); }
static nullres s85(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'s'>(), (short*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'l'>(), (long long*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'c'>(), (char*)0); KDD a9; get(in, a9); auto a10 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1, a10) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1, a10); }
static nullres s86(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'s'>(), (short*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'b'>(), (bool*)0); auto a6 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a7 = val(in, Tag<'C'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7); }
static nullres s87(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'i'>(), (int*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); KSS a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5.m0, a5.m1) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5.m0, a5.m1); }
static nullres s88(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'c'>(), (char*)0); auto a3 = val(in, Tag<'c'>(), (char*)0); auto a4 = val(in, Tag<'c'>(), (char*)0); auto a5 = val(in, Tag<'P'>(), (int**)0); KL a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6.m0) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6.m0); }
static nullres s89(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); KFFFF a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a1.m3) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a1.m3); }
static nullres s90(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'c'>(), (char*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'s'>(), (short*)0); auto a8 = val(in, Tag<'s'>(), (short*)0); KMIX a9; get(in, a9); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1, a9.m2, a9.m3, a9.m4, a9.m5, a9.m6) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1, a9.m2, a9.m3, a9.m4, a9.m5, a9.m6); }
static nullres s91(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIII a0; get(in, a0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'s'>(), (short*)0); auto a3 = val(in, Tag<'b'>(), (bool*)0); KCC a4; get(in, a4); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'l'>(), (long long*)0); KIII a7; get(in, a7); KIII a8; get(in, a8); KIFIF a9; get(in, a9); auto a10 = val(in, Tag<'s'>(), (short*)0); auto a11 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1, a2, a3, a4.m0, a4.m1, a5, a6, a7.m0, a7.m1, a7.m2, a8.m0, a8.m1, a8.m2, a9.m0, a9.m1, a9.m2, a9.m3, a10, a11) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1, a2, a3, a4.m0, a4.m1, a5, a6, a7.m0, a7.m1, a7.m2, a8.m0, a8.m1, a8.m2, a9.m0, a9.m1, a9.m2, a9.m3, a10, a11); }
static nullres s92(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'l'>(), (long long*)0); auto a5 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a6 = val(in, Tag<'c'>(), (char*)0); auto a7 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7); }
static nullres s93(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KID a0; get(in, a0); auto a1 = val(in, Tag<'T'>(), (unsigned*)0); KCC a2; get(in, a2); KDFF a3; get(in, a3); auto a4 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4); }
static nullres s94(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'l'>(), (long long*)0); auto a6 = val(in, Tag<'l'>(), (long long*)0); auto a7 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7); }
static nullres s95(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'c'>(), (char*)0); auto a4 = val(in, Tag<'c'>(), (char*)0); auto a5 = val(in, Tag<'T'>(), (unsigned*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6); }
static nullres s96(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a1 = val(in, Tag<'b'>(), (bool*)0); KCC a2; get(in, a2); KFFF a3; get(in, a3); auto a4 = val(in, Tag<'T'>(), (unsigned*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5) : nullcCallFunction(*ptr, a0, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5); }
static nullres s97(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); auto a3 = val(in, Tag<'i'>(), (int*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a6 = val(in, Tag<'i'>(), (int*)0); KCC a7; get(in, a7); auto a8 = val(in, Tag<'P'>(), (int**)0); auto a9 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a8, a9) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a8, a9); }
static nullres s98(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'c'>(), (char*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); KIII a7; get(in, a7); auto a8 = val(in, Tag<'f'>(), (float*)0); auto a9 = val(in, Tag<'T'>(), (unsigned*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2, a8, a9) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2, a8, a9); }
static nullres s99(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KC a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0) : nullcCallFunction(*ptr, a0.m0); }
static nullres s100(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KL a0; get(in, a0); auto a1 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a2 = val(in, Tag<'T'>(), (unsigned*)0); auto a3 = val(in, Tag<'b'>(), (bool*)0); auto a4 = val(in, Tag<'l'>(), (long long*)0); KLD a5; get(in, a5); KIF a6; get(in, a6); auto a7 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a1, a2, a3, a4, a5.m0, a5.m1, a6.m0, a6.m1, a7) : nullcCallFunction(*ptr, a0.m0, a1, a2, a3, a4, a5.m0, a5.m1, a6.m0, a6.m1, a7); }
static nullres s101(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s102(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'C'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2) : nullcCallFunction(*ptr, a0, a1, a2); }
static nullres s103(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KD a0; get(in, a0); KDI a1; get(in, a1); auto a2 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a1.m0, a1.m1, a2) : nullcCallFunction(*ptr, a0.m0, a1.m0, a1.m1, a2); }
static nullres s104(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s105(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'i'>(), (int*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'i'>(), (int*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'C'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
static nullres s106(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2) : nullcCallFunction(*ptr, a0, a1, a2); }
static nullres s107(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'b'>(), (bool*)0); KFFL a4; get(in, a4); KDDD a5; get(in, a5); auto a6 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2, a6) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2, a6); }
static nullres s108(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'R'>(), (NULLCRef*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'C'>(), (NULLCArray*)0); auto a3 = val(in, Tag<'A'>(), (NULLCArray*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3) : nullcCallFunction(*ptr, a0, a1, a2, a3); }
static nullres s109(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'c'>(), (char*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'b'>(), (bool*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6); }
static nullres s110(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a1 = val(in, Tag<'c'>(), (char*)0); KLL a2; get(in, a2); auto a3 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); KIL a4; get(in, a4); KIF a5; get(in, a5); KFFF a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a2.m1, a3, a4.m0, a4.m1, a5.m0, a5.m1, a6.m0, a6.m1, a6.m2) : nullcCallFunction(*ptr, a0, a1, a2.m0, a2.m1, a3, a4.m0, a4.m1, a5.m0, a5.m1, a6.m0, a6.m1, a6.m2); }
static nullres s111(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'i'>(), (int*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'b'>(), (bool*)0); KDD a9; get(in, a9); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9.m0, a9.m1); }
static nullres s112(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'P'>(), (int**)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s113(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIF a0; get(in, a0); KIF a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1); }
static nullres s114(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'b'>(), (bool*)0); auto a1 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'P'>(), (int**)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3) : nullcCallFunction(*ptr, a0, a1, a2, a3); }
static nullres s115(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'s'>(), (short*)0); auto a4 = val(in, Tag<'f'>(), (float*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); KFFF a7; get(in, a7); auto a8 = val(in, Tag<'P'>(), (int**)0); auto a9 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2, a8, a9) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2, a8, a9); }
static nullres s116(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'T'>(), (unsigned*)0); auto a1 = val(in, Tag<'b'>(), (bool*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); auto a3 = val(in, Tag<'b'>(), (bool*)0); auto a4 = val(in, Tag<'l'>(), (long long*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); KFFI a7; get(in, a7); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7.m0, a7.m1, a7.m2); }
static nullres s117(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'i'>(), (int*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'s'>(), (short*)0); auto a6 = val(in, Tag<'c'>(), (char*)0); auto a7 = val(in, Tag<'c'>(), (char*)0); auto a8 = val(in, Tag<'f'>(), (float*)0); auto a9 = val(in, Tag<'l'>(), (long long*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
static nullres s118(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); auto a1 = val(in, Tag<'b'>(), (bool*)0); auto a2 = val(in, Tag<'l'>(), (long long*)0); KDD a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3.m0, a3.m1) : nullcCallFunction(*ptr, a0, a1, a2, a3.m0, a3.m1); }
static nullres s119(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'s'>(), (short*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); KC a2; get(in, a2); auto a3 = val(in, Tag<'T'>(), (unsigned*)0); KLF a4; get(in, a4); auto a5 = val(in, Tag<'b'>(), (bool*)0); auto a6 = val(in, Tag<'l'>(), (long long*)0); auto a7 = val(in, Tag<'i'>(), (int*)0); auto a8 = val(in, Tag<'s'>(), (short*)0); auto a9 = val(in, Tag<'s'>(), (short*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2.m0, a3, a4.m0, a4.m1, a5, a6, a7, a8, a9) : nullcCallFunction(*ptr, a0, a1, a2.m0, a3, a4.m0, a4.m1, a5, a6, a7, a8, a9); }
static nullres s120(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'l'>(), (long long*)0); auto a1 = val(in, Tag<'b'>(), (bool*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1) : nullcCallFunction(*ptr, a0, a1); }
static nullres s121(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KLF a0; get(in, a0); KDDD a1; get(in, a1); auto a2 = val(in, Tag<'G'>(), (NULLCFuncPtr*)0); auto a3 = val(in, Tag<'s'>(), (short*)0); KFFL a4; get(in, a4); auto a5 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2, a3, a4.m0, a4.m1, a4.m2, a5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2, a3, a4.m0, a4.m1, a4.m2, a5); }
static nullres s122(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); auto a1 = val(in, Tag<'d'>(), (double*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'i'>(), (int*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); auto a6 = val(in, Tag<'s'>(), (short*)0); KI a7; get(in, a7); KF6 a8; get(in, a8); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7.m0, a8.m0, a8.m1, a8.m2, a8.m3, a8.m4, a8.m5) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7.m0, a8.m0, a8.m1, a8.m2, a8.m3, a8.m4, a8.m5); }
static nullres s123(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KID a0; get(in, a0); KFFF a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2); }
static nullres s124(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); auto a1 = val(in, Tag<'l'>(), (long long*)0); auto a2 = val(in, Tag<'i'>(), (int*)0); auto a3 = val(in, Tag<'f'>(), (float*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'f'>(), (float*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'d'>(), (double*)0); auto a8 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
static nullres s125(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); auto a1 = val(in, Tag<'s'>(), (short*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'f'>(), (float*)0); KCC a8; get(in, a8); KMIX a9; get(in, a9); KFFF a10; get(in, a10); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8.m0, a8.m1, a9.m0, a9.m1, a9.m2, a9.m3, a9.m4, a9.m5, a9.m6, a10.m0, a10.m1, a10.m2) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8.m0, a8.m1, a9.m0, a9.m1, a9.m2, a9.m3, a9.m4, a9.m5, a9.m6, a10.m0, a10.m1, a10.m2); }
static nullres s126(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'c'>(), (char*)0); auto a1 = val(in, Tag<'f'>(), (float*)0); auto a2 = val(in, Tag<'d'>(), (double*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); auto a4 = val(in, Tag<'d'>(), (double*)0); auto a5 = val(in, Tag<'d'>(), (double*)0); auto a6 = val(in, Tag<'d'>(), (double*)0); auto a7 = val(in, Tag<'i'>(), (int*)0); auto a8 = val(in, Tag<'c'>(), (char*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1, a2, a3, a4, a5, a6, a7, a8) : nullcCallFunction(*ptr, a0, a1, a2, a3, a4, a5, a6, a7, a8); }
static nullres s127(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFFI a0; get(in, a0); auto a1 = val(in, Tag<'b'>(), (bool*)0); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'A'>(), (NULLCArray*)0); auto a4 = val(in, Tag<'s'>(), (short*)0); auto a5 = val(in, Tag<'c'>(), (char*)0); KFF a6; get(in, a6); auto a7 = val(in, Tag<'T'>(), (unsigned*)0); auto a8 = val(in, Tag<'U'>(), (NULLCAutoArray*)0); auto a9 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1, a2, a3, a4, a5, a6.m0, a6.m1, a7, a8, a9) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1, a2, a3, a4, a5, a6.m0, a6.m1, a7, a8, a9); }
static nullres s128(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s129(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFIF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s130(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDFI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s131(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s132(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNIF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s133(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s134(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s135(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3); }
static nullres s136(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s137(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNCII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s138(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFCCS a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3); }
static nullres s139(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s140(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAF3 a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s141(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KADD a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s142(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAIII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s143(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s144(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAI a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s145(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s146(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s147(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDAF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s148(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAF6 a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5); }
static nullres s149(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAFF a0; get(in, a0); KFAII a1; get(in, a1); KNFCCS a2; get(in, a2); KNFFFI a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a2.m3, a3.m0, a3.m1, a3.m2, a3.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a2.m3, a3.m0, a3.m1, a3.m2, a3.m3); }
static nullres s150(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFF a0; get(in, a0); KADD a1; get(in, a1); KNFCCS a2; get(in, a2); auto a3 = val(in, Tag<'f'>(), (float*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3, a3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3, a3); }
static nullres s151(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAFF a0; get(in, a0); KNFI a1; get(in, a1); KNFCCS a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3); }
static nullres s152(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); KAIII a1; get(in, a1); KIAF a2; get(in, a2); KAF6 a3; get(in, a3); KAIII a4; get(in, a4); KNFFFI a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a3.m3, a3.m4, a3.m5, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2, a5.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a3.m3, a3.m4, a3.m5, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2, a5.m3); }
static nullres s153(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s154(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDAF a0; get(in, a0); KNFFFI a1; get(in, a1); KAF6 a2; get(in, a2); KAFF a3; get(in, a3); KNFFF a4; get(in, a4); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2, a2.m3, a2.m4, a2.m5, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2, a2.m3, a2.m4, a2.m5, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2); }
static nullres s155(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDFI a0; get(in, a0); KDAF a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2); }
static nullres s156(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNIF a0; get(in, a0); KNFFFI a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a1.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a1.m3); }
static nullres s157(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); KNDFI a1; get(in, a1); KNIF a2; get(in, a2); KIAFF a3; get(in, a3); KNIF a4; get(in, a4); KIAFF a5; get(in, a5); auto a6 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2, a6) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2, a6); }
static nullres s158(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNCII a0; get(in, a0); KNDD a1; get(in, a1); KFAI a2; get(in, a2); KAF6 a3; get(in, a3); KNFCCS a4; get(in, a4); KAF3 a5; get(in, a5); KAIII a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a3.m3, a3.m4, a3.m5, a4.m0, a4.m1, a4.m2, a4.m3, a5.m0, a5.m1, a5.m2, a6.m0, a6.m1, a6.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a3.m3, a3.m4, a3.m5, a4.m0, a4.m1, a4.m2, a4.m3, a5.m0, a5.m1, a5.m2, a6.m0, a6.m1, a6.m2); }
static nullres s159(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'d'>(), (double*)0); KNFCCS a1; get(in, a1); KFAII a2; get(in, a2); KNIF a3; get(in, a3); KAF3 a4; get(in, a4); KIAF a5; get(in, a5); KNFFFI a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a6.m0, a6.m1, a6.m2, a6.m3) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a6.m0, a6.m1, a6.m2, a6.m3); }
static nullres s160(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); KAIII a1; get(in, a1); auto a2 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a2) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a2); }
static nullres s161(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAI a0; get(in, a0); KNFI a1; get(in, a1); KAFF a2; get(in, a2); KAF3 a3; get(in, a3); KNFFFI a4; get(in, a4); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a4.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a4.m3); }
static nullres s162(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFI a0; get(in, a0); KNIF a1; get(in, a1); KADD a2; get(in, a2); KAIII a3; get(in, a3); KAFF a4; get(in, a4); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1); }
static nullres s163(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFIF a0; get(in, a0); KNDD a1; get(in, a1); KDAF a2; get(in, a2); KNFCCS a3; get(in, a3); KNFIF a4; get(in, a4); auto a5 = val(in, Tag<'i'>(), (int*)0); KNFFF a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a3.m3, a4.m0, a4.m1, a4.m2, a5, a6.m0, a6.m1, a6.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a3.m3, a4.m0, a4.m1, a4.m2, a5, a6.m0, a6.m1, a6.m2); }
static nullres s164(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KDAF a0; get(in, a0); KNCII a1; get(in, a1); KAF3 a2; get(in, a2); KNFFF a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2); }
static nullres s165(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAI a0; get(in, a0); KIAF a1; get(in, a1); KNFIF a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2); }
static nullres s166(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KIAFF a0; get(in, a0); KNFCCS a1; get(in, a1); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2, a3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2, a3); }
static nullres s167(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAF3 a0; get(in, a0); KNFCCS a1; get(in, a1); KFAI a2; get(in, a2); KIAF a3; get(in, a3); KIAF a4; get(in, a4); KNFCCS a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a3.m0, a3.m1, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2, a5.m3) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a3.m0, a3.m1, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2, a5.m3); }
static nullres s168(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KAF6 a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a0.m4, a0.m5); }
static nullres s169(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'i'>(), (int*)0); hold.off(); return name ? nullcRunFunction(name, a0) : nullcCallFunction(*ptr, a0); }
static nullres s170(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFIF a0; get(in, a0); KNFFI a1; get(in, a1); KNFFF a2; get(in, a2); KNDFI a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2); }
static nullres s171(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); KAF3 a1; get(in, a1); KNFI a2; get(in, a2); KAF3 a3; get(in, a3); KAIII a4; get(in, a4); KNIF a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1); }
static nullres s172(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDD a0; get(in, a0); KNFCCS a1; get(in, a1); KNCII a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a1.m3, a2.m0, a2.m1, a2.m2); }
static nullres s173(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFI a0; get(in, a0); KNFI a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1); }
static nullres s174(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFCCS a0; get(in, a0); KNIF a1; get(in, a1); KNDFI a2; get(in, a2); KNDD a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1); }
static nullres s175(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDD a0; get(in, a0); KFAI a1; get(in, a1); KFAII a2; get(in, a2); KAF3 a3; get(in, a3); KDAF a4; get(in, a4); KADD a5; get(in, a5); KNFF a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a6.m0, a6.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a6.m0, a6.m1); }
static nullres s176(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNCII a0; get(in, a0); auto a1 = val(in, Tag<'i'>(), (int*)0); KADD a2; get(in, a2); KNFFI a3; get(in, a3); auto a4 = val(in, Tag<'f'>(), (float*)0); KDAF a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5.m0, a5.m1, a5.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1, a2.m0, a2.m1, a3.m0, a3.m1, a3.m2, a4, a5.m0, a5.m1, a5.m2); }
static nullres s177(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); KNDFI a1; get(in, a1); KNFF a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1); }
static nullres s178(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAII a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2); }
static nullres s179(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KFAI a0; get(in, a0); KDAF a1; get(in, a1); KNFFF a2; get(in, a2); KFAII a3; get(in, a3); auto a4 = val(in, Tag<'d'>(), (double*)0); KAF3 a5; get(in, a5); KAIII a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a4, a5.m0, a5.m1, a5.m2, a6.m0, a6.m1, a6.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a3.m0, a3.m1, a3.m2, a4, a5.m0, a5.m1, a5.m2, a6.m0, a6.m1, a6.m2); }
static nullres s180(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFIF a0; get(in, a0); KAFF a1; get(in, a1); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1); }
static nullres s181(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFCCS a0; get(in, a0); KNFFI a1; get(in, a1); KAF6 a2; get(in, a2); KAIII a3; get(in, a3); KAF3 a4; get(in, a4); KNFFI a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a2.m3, a2.m4, a2.m5, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a2.m2, a2.m3, a2.m4, a2.m5, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a4.m2, a5.m0, a5.m1, a5.m2); }
static nullres s182(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; auto a0 = val(in, Tag<'f'>(), (float*)0); KAFF a1; get(in, a1); KNFCCS a2; get(in, a2); KNFFI a3; get(in, a3); hold.off(); return name ? nullcRunFunction(name, a0, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3, a3.m0, a3.m1, a3.m2) : nullcCallFunction(*ptr, a0, a1.m0, a1.m1, a2.m0, a2.m1, a2.m2, a2.m3, a3.m0, a3.m1, a3.m2); }
static nullres s183(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDD a0; get(in, a0); KDAF a1; get(in, a1); auto a2 = val(in, Tag<'f'>(), (float*)0); KNCII a3; get(in, a3); KFAI a4; get(in, a4); KNFI a5; get(in, a5); KNFF a6; get(in, a6); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a5.m0, a5.m1, a6.m0, a6.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a1.m2, a2, a3.m0, a3.m1, a3.m2, a4.m0, a4.m1, a5.m0, a5.m1, a6.m0, a6.m1); }
static nullres s184(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFF a0; get(in, a0); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1); }
static nullres s185(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); KAIII a1; get(in, a1); KNDD a2; get(in, a2); KNFF a3; get(in, a3); KAF6 a4; get(in, a4); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2, a4.m3, a4.m4, a4.m5) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1.m0, a1.m1, a1.m2, a2.m0, a2.m1, a3.m0, a3.m1, a4.m0, a4.m1, a4.m2, a4.m3, a4.m4, a4.m5); }
static nullres s186(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNIF a0; get(in, a0); KNDD a1; get(in, a1); KIAF a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a1.m0, a1.m1, a2.m0, a2.m1); }
static nullres s187(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNFFFI a0; get(in, a0); auto a1 = val(in, Tag<'i'>(), (int*)0); KNIF a2; get(in, a2); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a0.m3, a1, a2.m0, a2.m1) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a0.m3, a1, a2.m0, a2.m1); }
static nullres s188(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; KNDFI a0; get(in, a0); KNFFF a1; get(in, a1); auto a2 = val(in, Tag<'f'>(), (float*)0); auto a3 = val(in, Tag<'d'>(), (double*)0); KNFI a4; get(in, a4); KNFFF a5; get(in, a5); hold.off(); return name ? nullcRunFunction(name, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2, a3, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2) : nullcCallFunction(*ptr, a0.m0, a0.m1, a0.m2, a1.m0, a1.m1, a1.m2, a2, a3, a4.m0, a4.m1, a5.m0, a5.m1, a5.m2); }
static const int SIGS = 189;
typedef nullres (*CallFn)(const char*, NULLCFuncPtr*, In&); static const CallFn callFns[] = { s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12, s13, s14, s15, s16, s17, s18, s19, s20, s21, s22, s23, s24, s25, s26, s27, s28, s29, s30, s31, s32, s33, s34, s35, s36, s37, s38, s39, s40, s41, s42, s43, s44, s45, s46, s47, s48, s49, s50, s51, s52, s53, s54, s55, s56, s57, s58, s59, s60, s61, s62, s63, s64, s65, s66, s67, s68, s69, s70, s71, s72, s73, s74, s75, s76, s77, s78, s79, s80, s81, s82, s83, s84, s85, s86, s87, s88, s89, s90, s91, s92, s93, s94, s95, s96, s97, s98, s99, s100, s101, s102, s103, s104, s105, s106, s107, s108, s109, s110, s111, s112, s113, s114, s115, s116, s117, s118, s119, s120, s121, s122, s123, s124, s125, s126, s127, s128, s129, s130, s131, s132, s133, s134, s135, s136, s137, s138, s139, s140, s141, s142, s143, s144, s145, s146, s147, s148, s149, s150, s151, s152, s153, s154, s155, s156, s157, s158, s159, s160, s161, s162, s163, s164, s165, s166, s167, s168, s169, s170, s171, s172, s173, s174, s175, s176, s177, s178, s179, s180, s181, s182, s183, s184, s185, s186, s187, s188 };
static void bindAll(){ nullcBindModuleFunction("calls", (void(*)())h0, "r0", 0); nullcBindModuleFunctionHelper("calls", h0, "w0", 0);
	nullcBindModuleFunction("calls", (void(*)())h1, "r1", 0); nullcBindModuleFunctionHelper("calls", h1, "w1", 0);
	nullcBindModuleFunction("calls", (void(*)())h2, "r2", 0); nullcBindModuleFunctionHelper("calls", h2, "w2", 0);
	nullcBindModuleFunction("calls", (void(*)())h3, "r3", 0); nullcBindModuleFunctionHelper("calls", h3, "w3", 0);
	nullcBindModuleFunction("calls", (void(*)())h4, "r4", 0); nullcBindModuleFunctionHelper("calls", h4, "w4", 0);
	nullcBindModuleFunction("calls", (void(*)())h5, "r5", 0); nullcBindModuleFunctionHelper("calls", h5, "w5", 0);
	nullcBindModuleFunction("calls", (void(*)())h6, "r6", 0); nullcBindModuleFunctionHelper("calls", h6, "w6", 0);
	nullcBindModuleFunction("calls", (void(*)())h7, "r7", 0); nullcBindModuleFunctionHelper("calls", h7, "w7", 0);
	nullcBindModuleFunction("calls", (void(*)())h8, "r8", 0); nullcBindModuleFunctionHelper("calls", h8, "w8", 0);
	nullcBindModuleFunction("calls", (void(*)())h9, "r9", 0); nullcBindModuleFunctionHelper("calls", h9, "w9", 0);
	nullcBindModuleFunction("calls", (void(*)())h10, "r10", 0); nullcBindModuleFunctionHelper("calls", h10, "w10", 0);
	nullcBindModuleFunction("calls", (void(*)())h11, "r11", 0); nullcBindModuleFunctionHelper("calls", h11, "w11", 0);
	nullcBindModuleFunction("calls", (void(*)())h12, "r12", 0); nullcBindModuleFunctionHelper("calls", h12, "w12", 0);
	nullcBindModuleFunction("calls", (void(*)())h13, "r13", 0); nullcBindModuleFunctionHelper("calls", h13, "w13", 0);
	nullcBindModuleFunction("calls", (void(*)())h14, "r14", 0); nullcBindModuleFunctionHelper("calls", h14, "w14", 0);
	nullcBindModuleFunction("calls", (void(*)())h15, "r15", 0); nullcBindModuleFunctionHelper("calls", h15, "w15", 0);
	nullcBindModuleFunction("calls", (void(*)())h16, "r16", 0); nullcBindModuleFunctionHelper("calls", h16, "w16", 0);
	nullcBindModuleFunction("calls", (void(*)())h17, "r17", 0); nullcBindModuleFunctionHelper("calls", h17, "w17", 0);
	nullcBindModuleFunction("calls", (void(*)())h18, "r18", 0); nullcBindModuleFunctionHelper("calls", h18, "w18", 0);
	nullcBindModuleFunction("calls", (void(*)())h19, "r19", 0); nullcBindModuleFunctionHelper("calls", h19, "w19", 0);
	nullcBindModuleFunction("calls", (void(*)())h20, "r20", 0); nullcBindModuleFunctionHelper("calls", h20, "w20", 0);
	nullcBindModuleFunction("calls", (void(*)())h21, "r21", 0); nullcBindModuleFunctionHelper("calls", h21, "w21", 0);
	nullcBindModuleFunction("calls", (void(*)())h22, "r22", 0); nullcBindModuleFunctionHelper("calls", h22, "w22", 0);
	nullcBindModuleFunction("calls", (void(*)())h23, "r23", 0); nullcBindModuleFunctionHelper("calls", h23, "w23", 0);
	nullcBindModuleFunction("calls", (void(*)())h24, "r24", 0); nullcBindModuleFunctionHelper("calls", h24, "w24", 0);
	nullcBindModuleFunction("calls", (void(*)())h25, "r25", 0); nullcBindModuleFunctionHelper("calls", h25, "w25", 0);
	nullcBindModuleFunction("calls", (void(*)())h26, "r26", 0); nullcBindModuleFunctionHelper("calls", h26, "w26", 0);
	nullcBindModuleFunction("calls", (void(*)())h27, "r27", 0); nullcBindModuleFunctionHelper("calls", h27, "w27", 0);
	nullcBindModuleFunction("calls", (void(*)())h28, "r28", 0); nullcBindModuleFunctionHelper("calls", h28, "w28", 0);
	nullcBindModuleFunction("calls", (void(*)())h29, "r29", 0); nullcBindModuleFunctionHelper("calls", h29, "w29", 0);
	nullcBindModuleFunction("calls", (void(*)())h30, "r30", 0); nullcBindModuleFunctionHelper("calls", h30, "w30", 0);
	nullcBindModuleFunction("calls", (void(*)())h31, "r31", 0); nullcBindModuleFunctionHelper("calls", h31, "w31", 0);
	nullcBindModuleFunction("calls", (void(*)())h32, "r32", 0); nullcBindModuleFunctionHelper("calls", h32, "w32", 0);
	nullcBindModuleFunction("calls", (void(*)())h33, "r33", 0); nullcBindModuleFunctionHelper("calls", h33, "w33", 0);
	nullcBindModuleFunction("calls", (void(*)())h34, "r34", 0); nullcBindModuleFunctionHelper("calls", h34, "w34", 0);
	nullcBindModuleFunction("calls", (void(*)())h35, "r35", 0); nullcBindModuleFunctionHelper("calls", h35, "w35", 0);
	nullcBindModuleFunction("calls", (void(*)())h36, "r36", 0); nullcBindModuleFunctionHelper("calls", h36, "w36", 0);
	nullcBindModuleFunction("calls", (void(*)())h37, "r37", 0); nullcBindModuleFunctionHelper("calls", h37, "w37", 0);
	nullcBindModuleFunction("calls", (void(*)())h38, "r38", 0); nullcBindModuleFunctionHelper("calls", h38, "w38", 0);
	nullcBindModuleFunction("calls", (void(*)())h39, "r39", 0); nullcBindModuleFunctionHelper("calls", h39, "w39", 0);
	nullcBindModuleFunction("calls", (void(*)())h40, "r40", 0); nullcBindModuleFunctionHelper("calls", h40, "w40", 0);
	nullcBindModuleFunction("calls", (void(*)())h41, "r41", 0); nullcBindModuleFunctionHelper("calls", h41, "w41", 0);
	nullcBindModuleFunction("calls", (void(*)())h42, "r42", 0); nullcBindModuleFunctionHelper("calls", h42, "w42", 0);
	nullcBindModuleFunction("calls", (void(*)())h43, "r43", 0); nullcBindModuleFunctionHelper("calls", h43, "w43", 0);
	nullcBindModuleFunction("calls", (void(*)())h44, "r44", 0); nullcBindModuleFunctionHelper("calls", h44, "w44", 0);
	nullcBindModuleFunction("calls", (void(*)())h45, "r45", 0); nullcBindModuleFunctionHelper("calls", h45, "w45", 0);
	nullcBindModuleFunction("calls", (void(*)())h46, "r46", 0); nullcBindModuleFunctionHelper("calls", h46, "w46", 0);
	nullcBindModuleFunction("calls", (void(*)())h47, "r47", 0); nullcBindModuleFunctionHelper("calls", h47, "w47", 0);
	nullcBindModuleFunction("calls", (void(*)())h48, "r48", 0); nullcBindModuleFunctionHelper("calls", h48, "w48", 0);
	nullcBindModuleFunction("calls", (void(*)())h49, "r49", 0); nullcBindModuleFunctionHelper("calls", h49, "w49", 0);
	nullcBindModuleFunction("calls", (void(*)())h50, "r50", 0); nullcBindModuleFunctionHelper("calls", h50, "w50", 0);
	nullcBindModuleFunction("calls", (void(*)())h51, "r51", 0); nullcBindModuleFunctionHelper("calls", h51, "w51", 0);
	nullcBindModuleFunction("calls", (void(*)())h52, "r52", 0); nullcBindModuleFunctionHelper("calls", h52, "w52", 0);
	nullcBindModuleFunction("calls", (void(*)())h53, "r53", 0); nullcBindModuleFunctionHelper("calls", h53, "w53", 0);
	nullcBindModuleFunction("calls", (void(*)())h54, "r54", 0); nullcBindModuleFunctionHelper("calls", h54, "w54", 0);
	nullcBindModuleFunction("calls", (void(*)())h55, "r55", 0); nullcBindModuleFunctionHelper("calls", h55, "w55", 0);
	nullcBindModuleFunction("calls", (void(*)())h56, "r56", 0); nullcBindModuleFunctionHelper("calls", h56, "w56", 0);
	nullcBindModuleFunction("calls", (void(*)())h57, "r57", 0); nullcBindModuleFunctionHelper("calls", h57, "w57", 0);
	nullcBindModuleFunction("calls", (void(*)())h58, "r58", 0); nullcBindModuleFunctionHelper("calls", h58, "w58", 0);
	nullcBindModuleFunction("calls", (void(*)())h59, "r59", 0); nullcBindModuleFunctionHelper("calls", h59, "w59", 0);
	nullcBindModuleFunction("calls", (void(*)())h60, "r60", 0); nullcBindModuleFunctionHelper("calls", h60, "w60", 0);
	nullcBindModuleFunction("calls", (void(*)())h61, "r61", 0); nullcBindModuleFunctionHelper("calls", h61, "w61", 0);
	nullcBindModuleFunction("calls", (void(*)())h62, "r62", 0); nullcBindModuleFunctionHelper("calls", h62, "w62", 0);
	nullcBindModuleFunction("calls", (void(*)())h63, "r63", 0); nullcBindModuleFunctionHelper("calls", h63, "w63", 0);
	nullcBindModuleFunction("calls", (void(*)())h64, "r64", 0); nullcBindModuleFunctionHelper("calls", h64, "w64", 0);
	nullcBindModuleFunction("calls", (void(*)())h65, "r65", 0); nullcBindModuleFunctionHelper("calls", h65, "w65", 0);
	nullcBindModuleFunction("calls", (void(*)())h66, "r66", 0); nullcBindModuleFunctionHelper("calls", h66, "w66", 0);
	nullcBindModuleFunction("calls", (void(*)())h67, "r67", 0); nullcBindModuleFunctionHelper("calls", h67, "w67", 0);
	nullcBindModuleFunction("calls", (void(*)())h68, "r68", 0); nullcBindModuleFunctionHelper("calls", h68, "w68", 0);
	nullcBindModuleFunction("calls", (void(*)())h69, "r69", 0); nullcBindModuleFunctionHelper("calls", h69, "w69", 0);
	nullcBindModuleFunction("calls", (void(*)())h70, "r70", 0); nullcBindModuleFunctionHelper("calls", h70, "w70", 0);
	nullcBindModuleFunction("calls", (void(*)())h71, "r71", 0); nullcBindModuleFunctionHelper("calls", h71, "w71", 0);
	nullcBindModuleFunction("calls", (void(*)())h72, "r72", 0); nullcBindModuleFunctionHelper("calls", h72, "w72", 0);
	nullcBindModuleFunction("calls", (void(*)())h73, "r73", 0); nullcBindModuleFunctionHelper("calls", h73, "w73", 0);
	nullcBindModuleFunction("calls", (void(*)())h74, "r74", 0); nullcBindModuleFunctionHelper("calls", h74, "w74", 0);
	nullcBindModuleFunction("calls", (void(*)())h75, "r75", 0); nullcBindModuleFunctionHelper("calls", h75, "w75", 0);
	nullcBindModuleFunction("calls", (void(*)())h76, "r76", 0); nullcBindModuleFunctionHelper("calls", h76, "w76", 0);
	nullcBindModuleFunction("calls", (void(*)())h77, "r77", 0); nullcBindModuleFunctionHelper("calls", h77, "w77", 0);
	nullcBindModuleFunction("calls", (void(*)())h78, "r78", 0); nullcBindModuleFunctionHelper("calls", h78, "w78", 0);
	nullcBindModuleFunction("calls", (void(*)())h79, "r79", 0); nullcBindModuleFunctionHelper("calls", h79, "w79", 0);
	nullcBindModuleFunction("calls", (void(*)())h80, "r80", 0); nullcBindModuleFunctionHelper("calls", h80, "w80", 0);
	nullcBindModuleFunction("calls", (void(*)())h81, "r81", 0); nullcBindModuleFunctionHelper("calls", h81, "w81", 0);
	nullcBindModuleFunction("calls", (void(*)())h82, "r82", 0); nullcBindModuleFunctionHelper("calls", h82, "w82", 0);
	nullcBindModuleFunction("calls", (void(*)())h83, "r83", 0); nullcBindModuleFunctionHelper("calls", h83, "w83", 0);
	nullcBindModuleFunction("calls", (void(*)())h84, "r84", 0); nullcBindModuleFunctionHelper("calls", h84, "w84", 0);
	nullcBindModuleFunction("calls", (void(*)())h85, "r85", 0); nullcBindModuleFunctionHelper("calls", h85, "w85", 0);
	nullcBindModuleFunction("calls", (void(*)())h86, "r86", 0); nullcBindModuleFunctionHelper("calls", h86, "w86", 0);
	nullcBindModuleFunction("calls", (void(*)())h87, "r87", 0); nullcBindModuleFunctionHelper("calls", h87, "w87", 0);
	nullcBindModuleFunction("calls", (void(*)())h88, "r88", 0); nullcBindModuleFunctionHelper("calls", h88, "w88", 0);
	nullcBindModuleFunction("calls", (void(*)())h89, "r89", 0); nullcBindModuleFunctionHelper("calls", h89, "w89", 0);
	nullcBindModuleFunction("calls", (void(*)())h90, "r90", 0); nullcBindModuleFunctionHelper("calls", h90, "w90", 0);
	nullcBindModuleFunction("calls", (void(*)())h91, "r91", 0); nullcBindModuleFunctionHelper("calls", h91, "w91", 0);
	nullcBindModuleFunction("calls", (void(*)())h92, "r92", 0); nullcBindModuleFunctionHelper("calls", h92, "w92", 0);
	nullcBindModuleFunction("calls", (void(*)())h93, "r93", 0); nullcBindModuleFunctionHelper("calls", h93, "w93", 0);
	nullcBindModuleFunction("calls", (void(*)())h94, "r94", 0); nullcBindModuleFunctionHelper("calls", h94, "w94", 0);
	nullcBindModuleFunction("calls", (void(*)())h95, "r95", 0); nullcBindModuleFunctionHelper("calls", h95, "w95", 0);
	nullcBindModuleFunction("calls", (void(*)())h96, "r96", 0); nullcBindModuleFunctionHelper("calls", h96, "w96", 0);
	nullcBindModuleFunction("calls", (void(*)())h97, "r97", 0); nullcBindModuleFunctionHelper("calls", h97, "w97", 0);
	nullcBindModuleFunction("calls", (void(*)())h98, "r98", 0); nullcBindModuleFunctionHelper("calls", h98, "w98", 0);
	nullcBindModuleFunction("calls", (void(*)())h99, "r99", 0); nullcBindModuleFunctionHelper("calls", h99, "w99", 0);
	nullcBindModuleFunction("calls", (void(*)())h100, "r100", 0); nullcBindModuleFunctionHelper("calls", h100, "w100", 0);
	nullcBindModuleFunction("calls", (void(*)())h101, "r101", 0); nullcBindModuleFunctionHelper("calls", h101, "w101", 0);
	nullcBindModuleFunction("calls", (void(*)())h102, "r102", 0); nullcBindModuleFunctionHelper("calls", h102, "w102", 0);
	nullcBindModuleFunction("calls", (void(*)())h103, "r103", 0); nullcBindModuleFunctionHelper("calls", h103, "w103", 0);
	nullcBindModuleFunction("calls", (void(*)())h104, "r104", 0); nullcBindModuleFunctionHelper("calls", h104, "w104", 0);
	nullcBindModuleFunction("calls", (void(*)())h105, "r105", 0); nullcBindModuleFunctionHelper("calls", h105, "w105", 0);
	nullcBindModuleFunction("calls", (void(*)())h106, "r106", 0); nullcBindModuleFunctionHelper("calls", h106, "w106", 0);
	nullcBindModuleFunction("calls", (void(*)())h107, "r107", 0); nullcBindModuleFunctionHelper("calls", h107, "w107", 0);
	nullcBindModuleFunction("calls", (void(*)())h108, "r108", 0); nullcBindModuleFunctionHelper("calls", h108, "w108", 0);
	nullcBindModuleFunction("calls", (void(*)())h109, "r109", 0); nullcBindModuleFunctionHelper("calls", h109, "w109", 0);
	nullcBindModuleFunction("calls", (void(*)())h110, "r110", 0); nullcBindModuleFunctionHelper("calls", h110, "w110", 0);
	nullcBindModuleFunction("calls", (void(*)())h111, "r111", 0); nullcBindModuleFunctionHelper("calls", h111, "w111", 0);
	nullcBindModuleFunction("calls", (void(*)())h112, "r112", 0); nullcBindModuleFunctionHelper("calls", h112, "w112", 0);
	nullcBindModuleFunction("calls", (void(*)())h113, "r113", 0); nullcBindModuleFunctionHelper("calls", h113, "w113", 0);
	nullcBindModuleFunction("calls", (void(*)())h114, "r114", 0); nullcBindModuleFunctionHelper("calls", h114, "w114", 0);
	nullcBindModuleFunction("calls", (void(*)())h115, "r115", 0); nullcBindModuleFunctionHelper("calls", h115, "w115", 0);
	nullcBindModuleFunction("calls", (void(*)())h116, "r116", 0); nullcBindModuleFunctionHelper("calls", h116, "w116", 0);
	nullcBindModuleFunction("calls", (void(*)())h117, "r117", 0); nullcBindModuleFunctionHelper("calls", h117, "w117", 0);
	nullcBindModuleFunction("calls", (void(*)())h118, "r118", 0); nullcBindModuleFunctionHelper("calls", h118, "w118", 0);
	nullcBindModuleFunction("calls", (void(*)())h119, "r119", 0); nullcBindModuleFunctionHelper("calls", h119, "w119", 0);
	nullcBindModuleFunction("calls", (void(*)())h120, "r120", 0); nullcBindModuleFunctionHelper("calls", h120, "w120", 0);
	nullcBindModuleFunction("calls", (void(*)())h121, "r121", 0); nullcBindModuleFunctionHelper("calls", h121, "w121", 0);
	nullcBindModuleFunction("calls", (void(*)())h122, "r122", 0); nullcBindModuleFunctionHelper("calls", h122, "w122", 0);
	nullcBindModuleFunction("calls", (void(*)())h123, "r123", 0); nullcBindModuleFunctionHelper("calls", h123, "w123", 0);
	nullcBindModuleFunction("calls", (void(*)())h124, "r124", 0); nullcBindModuleFunctionHelper("calls", h124, "w124", 0);
	nullcBindModuleFunction("calls", (void(*)())h125, "r125", 0); nullcBindModuleFunctionHelper("calls", h125, "w125", 0);
	nullcBindModuleFunction("calls", (void(*)())h126, "r126", 0); nullcBindModuleFunctionHelper("calls", h126, "w126", 0);
	nullcBindModuleFunction("calls", (void(*)())h127, "r127", 0); nullcBindModuleFunctionHelper("calls", h127, "w127", 0);
	nullcBindModuleFunction("calls", (void(*)())h128, "r128", 0); nullcBindModuleFunctionHelper("calls", h128, "w128", 0);
	nullcBindModuleFunction("calls", (void(*)())h129, "r129", 0); nullcBindModuleFunctionHelper("calls", h129, "w129", 0);
	nullcBindModuleFunction("calls", (void(*)())h130, "r130", 0); nullcBindModuleFunctionHelper("calls", h130, "w130", 0);
	nullcBindModuleFunction("calls", (void(*)())h131, "r131", 0); nullcBindModuleFunctionHelper("calls", h131, "w131", 0);
	nullcBindModuleFunction("calls", (void(*)())h132, "r132", 0); nullcBindModuleFunctionHelper("calls", h132, "w132", 0);
	nullcBindModuleFunction("calls", (void(*)())h133, "r133", 0); nullcBindModuleFunctionHelper("calls", h133, "w133", 0);
	nullcBindModuleFunction("calls", (void(*)())h134, "r134", 0); nullcBindModuleFunctionHelper("calls", h134, "w134", 0);
	nullcBindModuleFunction("calls", (void(*)())h135, "r135", 0); nullcBindModuleFunctionHelper("calls", h135, "w135", 0);
	nullcBindModuleFunction("calls", (void(*)())h136, "r136", 0); nullcBindModuleFunctionHelper("calls", h136, "w136", 0);
	nullcBindModuleFunction("calls", (void(*)())h137, "r137", 0); nullcBindModuleFunctionHelper("calls", h137, "w137", 0);
	nullcBindModuleFunction("calls", (void(*)())h138, "r138", 0); nullcBindModuleFunctionHelper("calls", h138, "w138", 0);
	nullcBindModuleFunction("calls", (void(*)())h139, "r139", 0); nullcBindModuleFunctionHelper("calls", h139, "w139", 0);
	nullcBindModuleFunction("calls", (void(*)())h140, "r140", 0); nullcBindModuleFunctionHelper("calls", h140, "w140", 0);
	nullcBindModuleFunction("calls", (void(*)())h141, "r141", 0); nullcBindModuleFunctionHelper("calls", h141, "w141", 0);
	nullcBindModuleFunction("calls", (void(*)())h142, "r142", 0); nullcBindModuleFunctionHelper("calls", h142, "w142", 0);
	nullcBindModuleFunction("calls", (void(*)())h143, "r143", 0); nullcBindModuleFunctionHelper("calls", h143, "w143", 0);
	nullcBindModuleFunction("calls", (void(*)())h144, "r144", 0); nullcBindModuleFunctionHelper("calls", h144, "w144", 0);
	nullcBindModuleFunction("calls", (void(*)())h145, "r145", 0); nullcBindModuleFunctionHelper("calls", h145, "w145", 0);
	nullcBindModuleFunction("calls", (void(*)())h146, "r146", 0); nullcBindModuleFunctionHelper("calls", h146, "w146", 0);
	nullcBindModuleFunction("calls", (void(*)())h147, "r147", 0); nullcBindModuleFunctionHelper("calls", h147, "w147", 0);
	nullcBindModuleFunction("calls", (void(*)())h148, "r148", 0); nullcBindModuleFunctionHelper("calls", h148, "w148", 0);
	nullcBindModuleFunction("calls", (void(*)())h149, "r149", 0); nullcBindModuleFunctionHelper("calls", h149, "w149", 0);
	nullcBindModuleFunction("calls", (void(*)())h150, "r150", 0); nullcBindModuleFunctionHelper("calls", h150, "w150", 0);
	nullcBindModuleFunction("calls", (void(*)())h151, "r151", 0); nullcBindModuleFunctionHelper("calls", h151, "w151", 0);
	nullcBindModuleFunction("calls", (void(*)())h152, "r152", 0); nullcBindModuleFunctionHelper("calls", h152, "w152", 0);
	nullcBindModuleFunction("calls", (void(*)())h153, "r153", 0); nullcBindModuleFunctionHelper("calls", h153, "w153", 0);
	nullcBindModuleFunction("calls", (void(*)())h154, "r154", 0); nullcBindModuleFunctionHelper("calls", h154, "w154", 0);
	nullcBindModuleFunction("calls", (void(*)())h155, "r155", 0); nullcBindModuleFunctionHelper("calls", h155, "w155", 0);
	nullcBindModuleFunction("calls", (void(*)())h156, "r156", 0); nullcBindModuleFunctionHelper("calls", h156, "w156", 0);
	nullcBindModuleFunction("calls", (void(*)())h157, "r157", 0); nullcBindModuleFunctionHelper("calls", h157, "w157", 0);
	nullcBindModuleFunction("calls", (void(*)())h158, "r158", 0); nullcBindModuleFunctionHelper("calls", h158, "w158", 0);
	nullcBindModuleFunction("calls", (void(*)())h159, "r159", 0); nullcBindModuleFunctionHelper("calls", h159, "w159", 0);
	nullcBindModuleFunction("calls", (void(*)())h160, "r160", 0); nullcBindModuleFunctionHelper("calls", h160, "w160", 0);
	nullcBindModuleFunction("calls", (void(*)())h161, "r161", 0); nullcBindModuleFunctionHelper("calls", h161, "w161", 0);
	nullcBindModuleFunction("calls", (void(*)())h162, "r162", 0); nullcBindModuleFunctionHelper("calls", h162, "w162", 0);
	nullcBindModuleFunction("calls", (void(*)())h163, "r163", 0); nullcBindModuleFunctionHelper("calls", h163, "w163", 0);
	nullcBindModuleFunction("calls", (void(*)())h164, "r164", 0); nullcBindModuleFunctionHelper("calls", h164, "w164", 0);
	nullcBindModuleFunction("calls", (void(*)())h165, "r165", 0); nullcBindModuleFunctionHelper("calls", h165, "w165", 0);
	nullcBindModuleFunction("calls", (void(*)())h166, "r166", 0); nullcBindModuleFunctionHelper("calls", h166, "w166", 0);
	nullcBindModuleFunction("calls", (void(*)())h167, "r167", 0); nullcBindModuleFunctionHelper("calls", h167, "w167", 0);
	nullcBindModuleFunction("calls", (void(*)())h168, "r168", 0); nullcBindModuleFunctionHelper("calls", h168, "w168", 0);
	nullcBindModuleFunction("calls", (void(*)())h169, "r169", 0); nullcBindModuleFunctionHelper("calls", h169, "w169", 0);
	nullcBindModuleFunction("calls", (void(*)())h170, "r170", 0); nullcBindModuleFunctionHelper("calls", h170, "w170", 0);
	nullcBindModuleFunction("calls", (void(*)())h171, "r171", 0); nullcBindModuleFunctionHelper("calls", h171, "w171", 0);
	nullcBindModuleFunction("calls", (void(*)())h172, "r172", 0); nullcBindModuleFunctionHelper("calls", h172, "w172", 0);
	nullcBindModuleFunction("calls", (void(*)())h173, "r173", 0); nullcBindModuleFunctionHelper("calls", h173, "w173", 0);
	nullcBindModuleFunction("calls", (void(*)())h174, "r174", 0); nullcBindModuleFunctionHelper("calls", h174, "w174", 0);
	nullcBindModuleFunction("calls", (void(*)())h175, "r175", 0); nullcBindModuleFunctionHelper("calls", h175, "w175", 0);
	nullcBindModuleFunction("calls", (void(*)())h176, "r176", 0); nullcBindModuleFunctionHelper("calls", h176, "w176", 0);
	nullcBindModuleFunction("calls", (void(*)())h177, "r177", 0); nullcBindModuleFunctionHelper("calls", h177, "w177", 0);
	nullcBindModuleFunction("calls", (void(*)())h178, "r178", 0); nullcBindModuleFunctionHelper("calls", h178, "w178", 0);
	nullcBindModuleFunction("calls", (void(*)())h179, "r179", 0); nullcBindModuleFunctionHelper("calls", h179, "w179", 0);
	nullcBindModuleFunction("calls", (void(*)())h180, "r180", 0); nullcBindModuleFunctionHelper("calls", h180, "w180", 0);
	nullcBindModuleFunction("calls", (void(*)())h181, "r181", 0); nullcBindModuleFunctionHelper("calls", h181, "w181", 0);
	nullcBindModuleFunction("calls", (void(*)())h182, "r182", 0); nullcBindModuleFunctionHelper("calls", h182, "w182", 0);
	nullcBindModuleFunction("calls", (void(*)())h183, "r183", 0); nullcBindModuleFunctionHelper("calls", h183, "w183", 0);
	nullcBindModuleFunction("calls", (void(*)())h184, "r184", 0); nullcBindModuleFunctionHelper("calls", h184, "w184", 0);
	nullcBindModuleFunction("calls", (void(*)())h185, "r185", 0); nullcBindModuleFunctionHelper("calls", h185, "w185", 0);
	nullcBindModuleFunction("calls", (void(*)())h186, "r186", 0); nullcBindModuleFunctionHelper("calls", h186, "w186", 0);
	nullcBindModuleFunction("calls", (void(*)())h187, "r187", 0); nullcBindModuleFunctionHelper("calls", h187, "w187", 0);
	nullcBindModuleFunction("calls", (void(*)())h188, "r188", 0); nullcBindModuleFunctionHelper("calls", h188, "w188", 0); }
