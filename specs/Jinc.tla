-------------------------------- MODULE Jinc --------------------------------
(* 2 J1(x)/x in ten thousandths at x = 0, 1/5, 2/5, ..., 200.               *)
EXTENDS Integers
Jinc == <<10000, 9950, 9801, 9557, 9221, 8801, 8305, 7742, 7124, 6461, 5767, 5054, 4335, 3622, 2926, 2260, 1633, 1054, 530, 67, -330, -660, -922, -1115, -1244,
  -1310, -1320, -1279, -1194, -1073, -922, -751, -568, -379, -192, -13, 151, 296, 419, 516, 587, 629, 645, 634, 600, 545, 473, 386, 291, 189,
  87, -13, -107, -191, -263, -321, -364, -390, -400, -394, -372, -338, -291, -236, -174, -108, -41, 25, 87, 143, 191, 229, 257, 274, 279,
  273, 257, 232, 198, 158, 113, 65, 17, -30, -75, -115, -149, -176, -195, -206, -209, -203, -190, -169, -143, -111, -77, -40, -3, 33,
  67, 97, 122, 142, 156, 163, 164, 158, 146, 128, 107, 81, 53, 24, -6, -34, -61, -84, -104, -119, -128, -133, -132, -126, -115,
  -100, -82, -60, -37, -13, 12, 35, 56, 75, 90, 101, 108, 111, 109, 103, 93, 80, 64, 45, 25, 5, -15, -35, -52, -67,
  -79, -88, -93, -94, -92, -86, -77, -64, -50, -34, -17, 1, 18, 34, 49, 61, 71, 77, 81, 81, 78, 72, 64, 52, 39,
  25, 10, -5, -20, -34, -46, -56, -64, -69, -71, -71, -67, -61, -53, -43, -31, -18, -5, 8, 21, 33, 43, 52, 58, 62,
  63, 62, 58, 52, 45, 35, 24, 13, 1, -11, -22, -32, -41, -48, -53, -56, -56, -55, -51, -45, -38, -29, -19, -8, 2,
  13, 22, 31, 39, 44, 48, 50, 50, 48, 44, 39, 32, 24, 14, 5, -5, -14, -23, -30, -37, -41, -45, -46, -45, -43,
  -39, -34, -27, -19, -11, -2, 7, 15, 23, 29, 35, 39, 41, 42, 41, 38, 34, 29, 22, 15, 7, -1, -8, -16, -23,
  -28, -33, -36, -38, -38, -37, -34, -30, -25, -19, -12, -5, 3, 10, 17, 23, 28, 31, 34, 35, 35, 33, 31, 26, 21,
  16, 9, 2, -4, -11, -17, -22, -27, -30, -32, -33, -32, -30, -27, -23, -18, -13, -7, 0, 6, 12, 17, 22, 26, 28,
  30, 30, 29, 27, 24, 20, 16, 10, 4, -1, -7, -13, -17, -22, -25, -27, -28, -28, -27, -25, -22, -18, -13, -8, -3,
  3, 8, 13, 17, 21, 24, 26, 26, 26, 25, 22, 19, 15, 11, 6, 1, -4, -9, -13, -17, -21, -23, -24, -25, -24,
  -23, -20, -17, -13, -9, -4, 1, 5, 10, 14, 17, 20, 22, 23, 23, 22, 21, 18, 15, 11, 7, 3, -2, -6, -10,
  -14, -17, -20, -21, -22, -22, -21, -19, -16, -13, -10, -6, -1, 3, 7, 11, 14, 17, 19, 20, 21, 20, 19, 17, 15,
  12, 8, 4, 0, -4, -8, -11, -14, -17, -18, -19, -20, -19, -18, -16, -13, -10, -7, -3, 1, 5, 8, 11, 14, 16,
  18, 19, 19, 18, 16, 14, 12, 9, 5, 2, -2, -6, -9, -12, -14, -16, -17, -18, -17, -17, -15, -13, -10, -7, -4,
  -1, 3, 6, 9, 12, 14, 16, 17, 17, 16, 15, 14, 12, 9, 6, 3, 0, -4, -7, -10, -12, -14, -15, -16, -16,
  -15, -14, -13, -10, -8, -5, -2, 1, 4, 7, 10, 12, 14, 15, 15, 15, 14, 13, 11, 9, 7, 4, 1, -2, -5,
  -8, -10, -12, -13, -14, -15, -14, -14, -12, -10, -8, -6, -3, 0, 3, 6, 8, 10, 12, 13, 14, 14, 14, 13, 11,
  9, 7, 5, 2, -1, -4, -6, -8, -10, -12, -13, -13, -13, -13, -12, -10, -8, -6, -4, -1, 2, 4, 6, 9, 10,
  12, 13, 13, 13, 12, 11, 9, 7, 5, 3, 0, -2, -5, -7, -9, -10, -11, -12, -12, -12, -11, -10, -8, -7, -4,
  -2, 0, 3, 5, 7, 9, 10, 11, 12, 12, 11, 11, 9, 8, 6, 4, 1, -1, -3, -6, -7, -9, -10, -11, -11,
  -11, -11, -10, -8, -7, -5, -3, -1, 2, 4, 6, 8, 9, 10, 11, 11, 11, 10, 9, 8, 6, 4, 2, 0, -2,
  -4, -6, -8, -9, -10, -11, -11, -10, -10, -8, -7, -5, -3, -1, 1, 3, 5, 6, 8, 9, 10, 10, 10, 10, 9,
  8, 6, 5, 3, 1, -1, -3, -5, -7, -8, -9, -10, -10, -10, -9, -8, -7, -6, -4, -2, 0, 2, 4, 5, 7,
  8, 9, 9, 10, 9, 9, 8, 6, 5, 3, 1, 0, -2, -4, -6, -7, -8, -9, -9, -9, -9, -8, -7, -6, -4,
  -3, -1, 1, 3, 4, 6, 7, 8, 9, 9, 9, 8, 8, 7, 5, 4, 2, 0, -1, -3, -5, -6, -7, -8, -9,
  -9, -9, -8, -7, -6, -5, -3, -2, 0, 2, 3, 5, 6, 7, 8, 8, 8, 8, 8, 7, 6, 4, 3, 1, -1,
  -2, -4, -5, -6, -7, -8, -8, -8, -8, -7, -6, -5, -4, -2, -1, 1, 3, 4, 5, 6, 7, 8, 8, 8, 7,
  7, 6, 4, 3, 2, 0, -2, -3, -4, -6, -6, -7, -8, -8, -7, -7, -6, -5, -4, -3, -1, 0, 2, 3, 5,
  6, 7, 7, 7, 7, 7, 7, 6, 5, 3, 2, 1, -1, -2, -4, -5, -6, -7, -7, -7, -7, -7, -6, -5, -4,
  -3, -2, 0, 1, 3, 4, 5, 6, 7, 7, 7, 7, 6, 6, 5, 4, 3, 1, 0, -2, -3, -4, -5, -6, -7,
  -7, -7, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 6, 7, 7, 6, 6, 5, 4, 3, 2, 0,
  -1, -2, -3, -4, -5, -6, -6, -7, -6, -6, -5, -5, -4, -2, -1, 0, 1, 3, 4, 5, 5, 6, 6, 6, 6,
  6, 5, 4, 3, 2, 1, 0, -2, -3, -4, -5, -5, -6, -6, -6, -6, -5, -5, -4, -3, -2, 0, 1, 2, 3,
  4, 5, 5, 6, 6, 6, 6, 5, 4, 3, 2, 1, 0, -1, -2, -3, -4, -5, -5, -6, -6, -6, -5, -5, -4,
  -3, -2, -1, 0, 1, 2, 3, 4, 5, 5, 6, 6, 6, 5, 5, 4, 3, 2, 1, -1, -2, -3, -4, -4, -5,
  -5>>
=============================================================================
