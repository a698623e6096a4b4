// written by tools/mkfun.py
namespace vf {
extern long LOG[21]; extern int CALLS, WHICH; extern const void* SELF;
inline long fr0() { CALLS++; WHICH = 0; SELF = 0; return 1000L + LOG[0]; }
inline void fv0() { CALLS++; WHICH = 100; SELF = 0; }
struct M0 { int id; long r() { CALLS++; WHICH = 0; SELF = this; return id; }
  void v() { CALLS++; WHICH = 100; SELF = this; }
  long rc() const { CALLS++; WHICH = 200; SELF = this; return id + 1L; }
  void vc() const { CALLS++; WHICH = 300; SELF = this; }
};
inline long fr1(int a1) { CALLS++; WHICH = 1; SELF = 0; LOG[0] = a1; return 1001L + LOG[0]; }
inline void fv1(int a1) { CALLS++; WHICH = 101; SELF = 0; LOG[0] = a1; }
struct M1 { int id; long r(int a1) { CALLS++; WHICH = 1; SELF = this; LOG[0] = a1; return id; }
  void v(int a1) { CALLS++; WHICH = 101; SELF = this; LOG[0] = a1; }
  long rc(int a1) const { CALLS++; WHICH = 201; SELF = this; LOG[0] = a1; return id + 1L; }
  void vc(int a1) const { CALLS++; WHICH = 301; SELF = this; LOG[0] = a1; }
};
inline long fr2(int a1, short a2) { CALLS++; WHICH = 2; SELF = 0; LOG[0] = a1; LOG[1] = a2; return 1002L + LOG[0]; }
inline void fv2(int a1, short a2) { CALLS++; WHICH = 102; SELF = 0; LOG[0] = a1; LOG[1] = a2; }
struct M2 { int id; long r(int a1, short a2) { CALLS++; WHICH = 2; SELF = this; LOG[0] = a1; LOG[1] = a2; return id; }
  void v(int a1, short a2) { CALLS++; WHICH = 102; SELF = this; LOG[0] = a1; LOG[1] = a2; }
  long rc(int a1, short a2) const { CALLS++; WHICH = 202; SELF = this; LOG[0] = a1; LOG[1] = a2; return id + 1L; }
  void vc(int a1, short a2) const { CALLS++; WHICH = 302; SELF = this; LOG[0] = a1; LOG[1] = a2; }
};
inline long fr3(int a1, short a2, unsigned char a3) { CALLS++; WHICH = 3; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; return 1003L + LOG[0]; }
inline void fv3(int a1, short a2, unsigned char a3) { CALLS++; WHICH = 103; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; }
struct M3 { int id; long r(int a1, short a2, unsigned char a3) { CALLS++; WHICH = 3; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; return id; }
  void v(int a1, short a2, unsigned char a3) { CALLS++; WHICH = 103; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; }
  long rc(int a1, short a2, unsigned char a3) const { CALLS++; WHICH = 203; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3) const { CALLS++; WHICH = 303; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; }
};
inline long fr4(int a1, short a2, unsigned char a3, long a4) { CALLS++; WHICH = 4; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; return 1004L + LOG[0]; }
inline void fv4(int a1, short a2, unsigned char a3, long a4) { CALLS++; WHICH = 104; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; }
struct M4 { int id; long r(int a1, short a2, unsigned char a3, long a4) { CALLS++; WHICH = 4; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; return id; }
  void v(int a1, short a2, unsigned char a3, long a4) { CALLS++; WHICH = 104; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; }
  long rc(int a1, short a2, unsigned char a3, long a4) const { CALLS++; WHICH = 204; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4) const { CALLS++; WHICH = 304; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; }
};
inline long fr5(int a1, short a2, unsigned char a3, long a4, char a5) { CALLS++; WHICH = 5; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; return 1005L + LOG[0]; }
inline void fv5(int a1, short a2, unsigned char a3, long a4, char a5) { CALLS++; WHICH = 105; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; }
struct M5 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5) { CALLS++; WHICH = 5; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5) { CALLS++; WHICH = 105; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5) const { CALLS++; WHICH = 205; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5) const { CALLS++; WHICH = 305; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; }
};
inline long fr6(int a1, short a2, unsigned char a3, long a4, char a5, int a6) { CALLS++; WHICH = 6; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; return 1006L + LOG[0]; }
inline void fv6(int a1, short a2, unsigned char a3, long a4, char a5, int a6) { CALLS++; WHICH = 106; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; }
struct M6 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6) { CALLS++; WHICH = 6; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6) { CALLS++; WHICH = 106; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6) const { CALLS++; WHICH = 206; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6) const { CALLS++; WHICH = 306; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; }
};
inline long fr7(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) { CALLS++; WHICH = 7; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; return 1007L + LOG[0]; }
inline void fv7(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) { CALLS++; WHICH = 107; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; }
struct M7 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) { CALLS++; WHICH = 7; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) { CALLS++; WHICH = 107; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) const { CALLS++; WHICH = 207; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7) const { CALLS++; WHICH = 307; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; }
};
inline long fr8(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) { CALLS++; WHICH = 8; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; return 1008L + LOG[0]; }
inline void fv8(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) { CALLS++; WHICH = 108; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; }
struct M8 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) { CALLS++; WHICH = 8; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) { CALLS++; WHICH = 108; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) const { CALLS++; WHICH = 208; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8) const { CALLS++; WHICH = 308; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; }
};
inline long fr9(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) { CALLS++; WHICH = 9; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; return 1009L + LOG[0]; }
inline void fv9(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) { CALLS++; WHICH = 109; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; }
struct M9 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) { CALLS++; WHICH = 9; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) { CALLS++; WHICH = 109; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) const { CALLS++; WHICH = 209; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9) const { CALLS++; WHICH = 309; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; }
};
inline long fr10(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) { CALLS++; WHICH = 10; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; return 1010L + LOG[0]; }
inline void fv10(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) { CALLS++; WHICH = 110; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; }
struct M10 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) { CALLS++; WHICH = 10; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) { CALLS++; WHICH = 110; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) const { CALLS++; WHICH = 210; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10) const { CALLS++; WHICH = 310; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; }
};
inline long fr11(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) { CALLS++; WHICH = 11; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; return 1011L + LOG[0]; }
inline void fv11(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) { CALLS++; WHICH = 111; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; }
struct M11 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) { CALLS++; WHICH = 11; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) { CALLS++; WHICH = 111; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) const { CALLS++; WHICH = 211; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11) const { CALLS++; WHICH = 311; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; }
};
inline long fr12(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) { CALLS++; WHICH = 12; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; return 1012L + LOG[0]; }
inline void fv12(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) { CALLS++; WHICH = 112; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; }
struct M12 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) { CALLS++; WHICH = 12; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) { CALLS++; WHICH = 112; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) const { CALLS++; WHICH = 212; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12) const { CALLS++; WHICH = 312; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; }
};
inline long fr13(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) { CALLS++; WHICH = 13; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; return 1013L + LOG[0]; }
inline void fv13(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) { CALLS++; WHICH = 113; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; }
struct M13 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) { CALLS++; WHICH = 13; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) { CALLS++; WHICH = 113; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) const { CALLS++; WHICH = 213; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13) const { CALLS++; WHICH = 313; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; }
};
inline long fr14(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) { CALLS++; WHICH = 14; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; return 1014L + LOG[0]; }
inline void fv14(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) { CALLS++; WHICH = 114; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; }
struct M14 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) { CALLS++; WHICH = 14; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) { CALLS++; WHICH = 114; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) const { CALLS++; WHICH = 214; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14) const { CALLS++; WHICH = 314; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; }
};
inline long fr15(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) { CALLS++; WHICH = 15; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; return 1015L + LOG[0]; }
inline void fv15(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) { CALLS++; WHICH = 115; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; }
struct M15 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) { CALLS++; WHICH = 15; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) { CALLS++; WHICH = 115; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) const { CALLS++; WHICH = 215; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15) const { CALLS++; WHICH = 315; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; }
};
inline long fr16(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) { CALLS++; WHICH = 16; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; return 1016L + LOG[0]; }
inline void fv16(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) { CALLS++; WHICH = 116; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; }
struct M16 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) { CALLS++; WHICH = 16; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) { CALLS++; WHICH = 116; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) const { CALLS++; WHICH = 216; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16) const { CALLS++; WHICH = 316; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; }
};
inline long fr17(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) { CALLS++; WHICH = 17; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; return 1017L + LOG[0]; }
inline void fv17(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) { CALLS++; WHICH = 117; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; }
struct M17 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) { CALLS++; WHICH = 17; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) { CALLS++; WHICH = 117; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) const { CALLS++; WHICH = 217; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17) const { CALLS++; WHICH = 317; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; }
};
inline long fr18(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) { CALLS++; WHICH = 18; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; return 1018L + LOG[0]; }
inline void fv18(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) { CALLS++; WHICH = 118; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; }
struct M18 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) { CALLS++; WHICH = 18; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) { CALLS++; WHICH = 118; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) const { CALLS++; WHICH = 218; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18) const { CALLS++; WHICH = 318; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; }
};
inline long fr19(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) { CALLS++; WHICH = 19; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; return 1019L + LOG[0]; }
inline void fv19(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) { CALLS++; WHICH = 119; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; }
struct M19 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) { CALLS++; WHICH = 19; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) { CALLS++; WHICH = 119; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) const { CALLS++; WHICH = 219; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19) const { CALLS++; WHICH = 319; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; }
};
inline long fr20(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) { CALLS++; WHICH = 20; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; return 1020L + LOG[0]; }
inline void fv20(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) { CALLS++; WHICH = 120; SELF = 0; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; }
struct M20 { int id; long r(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) { CALLS++; WHICH = 20; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; return id; }
  void v(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) { CALLS++; WHICH = 120; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; }
  long rc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) const { CALLS++; WHICH = 220; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; return id + 1L; }
  void vc(int a1, short a2, unsigned char a3, long a4, char a5, int a6, short a7, unsigned char a8, long a9, char a10, int a11, short a12, unsigned char a13, long a14, char a15, int a16, short a17, unsigned char a18, long a19, char a20) const { CALLS++; WHICH = 320; SELF = this; LOG[0] = a1; LOG[1] = a2; LOG[2] = a3; LOG[3] = a4; LOG[4] = a5; LOG[5] = a6; LOG[6] = a7; LOG[7] = a8; LOG[8] = a9; LOG[9] = a10; LOG[10] = a11; LOG[11] = a12; LOG[12] = a13; LOG[13] = a14; LOG[14] = a15; LOG[15] = a16; LOG[16] = a17; LOG[17] = a18; LOG[18] = a19; LOG[19] = a20; }
};
}
#define ARGS0(X) 
#define LIST0 
#define ARGS1(X) X(1, int)
#define LIST1 x1
#define ARGS2(X) X(1, int) X(2, short)
#define LIST2 x1, x2
#define ARGS3(X) X(1, int) X(2, short) X(3, unsigned char)
#define LIST3 x1, x2, x3
#define ARGS4(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long)
#define LIST4 x1, x2, x3, x4
#define ARGS5(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char)
#define LIST5 x1, x2, x3, x4, x5
#define ARGS6(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int)
#define LIST6 x1, x2, x3, x4, x5, x6
#define ARGS7(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short)
#define LIST7 x1, x2, x3, x4, x5, x6, x7
#define ARGS8(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char)
#define LIST8 x1, x2, x3, x4, x5, x6, x7, x8
#define ARGS9(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long)
#define LIST9 x1, x2, x3, x4, x5, x6, x7, x8, x9
#define ARGS10(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char)
#define LIST10 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10
#define ARGS11(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int)
#define LIST11 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11
#define ARGS12(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short)
#define LIST12 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12
#define ARGS13(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char)
#define LIST13 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13
#define ARGS14(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long)
#define LIST14 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14
#define ARGS15(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char)
#define LIST15 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15
#define ARGS16(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char) X(16, int)
#define LIST16 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16
#define ARGS17(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char) X(16, int) X(17, short)
#define LIST17 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17
#define ARGS18(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char) X(16, int) X(17, short) X(18, unsigned char)
#define LIST18 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18
#define ARGS19(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char) X(16, int) X(17, short) X(18, unsigned char) X(19, long)
#define LIST19 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19
#define ARGS20(X) X(1, int) X(2, short) X(3, unsigned char) X(4, long) X(5, char) X(6, int) X(7, short) X(8, unsigned char) X(9, long) X(10, char) X(11, int) X(12, short) X(13, unsigned char) X(14, long) X(15, char) X(16, int) X(17, short) X(18, unsigned char) X(19, long) X(20, char)
#define LIST20 x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20
#define LISTA0 
#define LISTA1 , AI[0]
#define LISTA2 , AI[0], AI[1]
#define LISTA3 , AI[0], AI[1], AI[2]
#define LISTA4 , AI[0], AI[1], AI[2], AI[3]
#define LISTA5 , AI[0], AI[1], AI[2], AI[3], AI[4]
#define LISTA6 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5]
#define LISTA7 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6]
#define LISTA8 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7]
#define LISTA9 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8]
#define LISTA10 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9]
#define LISTA11 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10]
#define LISTA12 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11]
#define LISTA13 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12]
#define LISTA14 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13]
#define LISTA15 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14]
#define LISTA16 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14], AI[15]
#define LISTA17 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14], AI[15], AI[16]
#define LISTA18 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14], AI[15], AI[16], AI[17]
#define LISTA19 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14], AI[15], AI[16], AI[17], AI[18]
#define LISTA20 , AI[0], AI[1], AI[2], AI[3], AI[4], AI[5], AI[6], AI[7], AI[8], AI[9], AI[10], AI[11], AI[12], AI[13], AI[14], AI[15], AI[16], AI[17], AI[18], AI[19]
#define TYPES0 
#define TYPES1 int
#define TYPES2 int, short
#define TYPES3 int, short, unsigned char
#define TYPES4 int, short, unsigned char, long
#define TYPES5 int, short, unsigned char, long, char
#define TYPES6 int, short, unsigned char, long, char, int
#define TYPES7 int, short, unsigned char, long, char, int, short
#define TYPES8 int, short, unsigned char, long, char, int, short, unsigned char
#define TYPES9 int, short, unsigned char, long, char, int, short, unsigned char, long
#define TYPES10 int, short, unsigned char, long, char, int, short, unsigned char, long, char
#define TYPES11 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int
#define TYPES12 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short
#define TYPES13 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char
#define TYPES14 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long
#define TYPES15 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char
#define TYPES16 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char, int
#define TYPES17 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short
#define TYPES18 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char
#define TYPES19 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long
#define TYPES20 int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char, int, short, unsigned char, long, char
