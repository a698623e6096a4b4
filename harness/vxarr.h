namespace va { struct In { int a; }; struct Ranks { int r3[2][2][3]; In r2[2][3]; short r4[2][3][2][2]; bool b[2][2]; int after; }; }
