/** Published harmonic tables, as reference.
 *
 * ZONAL: IERS 2010 Table 8.1: l, l', F, D, Om, period, UT1 sin, cos
 *        [1e-4 s], LOD cos, sin [1e-5 s], omega cos, sin [1e-14 rad/s]
 * LIB_UT, LIB_PM: tables 5.1b and 5.1a (diurnal band) as in the IERS routines
 *        UTLIBR and PMSDNUT2: gmst+pi, l, l', F, D, Om, period, two pairs
 *        of sin, cos
 *        In three places (0.05, -4.2, -9.5) these sources differ from the
 *        library by one unit of the last published digit (0.04, -4.1,
 *        -9.6); the table here follows the library.
 * OCEAN: tables 8.2, 8.3: tau, s, h, p, N', ps; sin, cos of xp, yp, UT1, LOD
 */
static const double ZONAL[][12] = {
    {1, 0, 2, 2, 2, 5.64, -0.0235, 0, 0.2617, 0, -0.2209, 0},
    {2, 0, 2, 0, 1, 6.85, -0.0404, 0, 0.3706, 0, -0.3128, 0},
    {2, 0, 2, 0, 2, 6.86, -0.0987, 0, 0.9041, 0, -0.763, 0},
    {0, 0, 2, 2, 1, 7.09, -0.0508, 0, 0.4499, 0, -0.3797, 0},
    {0, 0, 2, 2, 2, 7.1, -0.1231, 0, 1.0904, 0, -0.9203, 0},
    {1, 0, 2, 0, 0, 9.11, -0.0385, 0, 0.2659, 0, -0.2244, 0},
    {1, 0, 2, 0, 1, 9.12, -0.4108, 0, 2.8298, 0, -2.3884, 0},
    {1, 0, 2, 0, 2, 9.13, -0.9926, 0, 6.8291, 0, -5.7637, 0},
    {3, 0, 0, 0, 0, 9.18, -0.0179, 0, 0.1222, 0, -0.1031, 0},
    {-1, 0, 2, 2, 1, 9.54, -0.0818, 0, 0.5384, 0, -0.4544, 0},
    {-1, 0, 2, 2, 2, 9.56, -0.1974, 0, 1.2978, 0, -1.0953, 0},
    {1, 0, 0, 2, 0, 9.61, -0.0761, 0, 0.4976, 0, -0.42, 0},
    {2, 0, 2, -2, 2, 12.81, 0.0216, 0, -0.106, 0, 0.0895, 0},
    {0, 1, 2, 0, 2, 13.17, 0.0254, 0, -0.1211, 0, 0.1022, 0},
    {0, 0, 2, 0, 0, 13.61, -0.2989, 0, 1.3804, 0, -1.165, 0},
    {0, 0, 2, 0, 1, 13.63, -3.1873, 0.201, 14.689, 0.9266, -12.3974, -0.782},
    {0, 0, 2, 0, 2, 13.66, -7.8468, 0.532, 36.091, 2.4469, -30.4606, -2.0652},
    {2, 0, 0, 0, -1, 13.75, 0.0216, 0, -0.0988, 0, 0.0834, 0},
    {2, 0, 0, 0, 0, 13.78, -0.3384, 0, 1.5433, 0, -1.3025, 0},
    {2, 0, 0, 0, 1, 13.81, 0.0179, 0, -0.0813, 0, 0.0686, 0},
    {0, -1, 2, 0, 2, 14.19, -0.0244, 0, 0.1082, 0, -0.0913, 0},
    {0, 0, 0, 2, -1, 14.73, 0.047, 0, -0.2004, 0, 0.1692, 0},
    {0, 0, 0, 2, 0, 14.77, -0.7341, 0, 3.124, 0, -2.6367, 0},
    {0, 0, 0, 2, 1, 14.8, -0.0526, 0, 0.2235, 0, -0.1886, 0},
    {0, -1, 0, 2, 0, 15.39, -0.0508, 0, 0.2073, 0, -0.1749, 0},
    {1, 0, 2, -2, 1, 23.86, 0.0498, 0, -0.1312, 0, 0.1107, 0},
    {1, 0, 2, -2, 2, 23.94, 0.1006, 0, -0.264, 0, 0.2228, 0},
    {1, 1, 0, 0, 0, 25.62, 0.0395, 0, -0.0968, 0, 0.0817, 0},
    {-1, 0, 2, 0, 0, 26.88, 0.047, 0, -0.1099, 0, 0.0927, 0},
    {-1, 0, 2, 0, 1, 26.98, 0.1767, 0, -0.4115, 0, 0.3473, 0},
    {-1, 0, 2, 0, 2, 27.09, 0.4352, 0, -1.0093, 0, 0.8519, 0},
    {1, 0, 0, 0, -1, 27.44, 0.5339, 0, -1.2224, 0, 1.0317, 0},
    {1, 0, 0, 0, 0, 27.56, -8.4046, 0.25, 19.1647, 0.5701, -16.1749, -0.4811},
    {1, 0, 0, 0, 1, 27.67, 0.5443, 0, -1.236, 0, 1.0432, 0},
    {0, 0, 0, 1, 0, 29.53, 0.047, 0, -0.1, 0, 0.0844, 0},
    {1, -1, 0, 0, 0, 29.8, -0.0555, 0, 0.1169, 0, -0.0987, 0},
    {-1, 0, 0, 2, -1, 31.66, 0.1175, 0, -0.2332, 0, 0.1968, 0},
    {-1, 0, 0, 2, 0, 31.81, -1.8236, 0, 3.6018, 0, -3.0399, 0},
    {-1, 0, 0, 2, 1, 31.96, 0.1316, 0, -0.2587, 0, 0.2183, 0},
    {1, 0, -2, 2, -1, 32.61, 0.0179, 0, -0.0344, 0, 0.029, 0},
    {-1, -1, 0, 2, 0, 34.85, -0.0855, 0, 0.1542, 0, -0.1302, 0},
    {0, 2, 2, -2, 2, 91.31, -0.0573, 0, 0.0395, 0, -0.0333, 0},
    {0, 1, 2, -2, 1, 119.61, 0.0329, 0, -0.0173, 0, 0.0146, 0},
    {0, 1, 2, -2, 2, 121.75, -1.8847, 0, 0.9726, 0, -0.8209, 0},
    {0, 0, 2, -2, 0, 173.31, 0.251, 0, -0.091, 0, 0.0768, 0},
    {0, 0, 2, -2, 1, 177.84, 1.1703, 0, -0.4135, 0, 0.349, 0},
    {0, 0, 2, -2, 2, 182.62, -49.7174, 0.433, 17.1056, 0.149, -14.437, -0.1257},
    {0, 2, 0, 0, 0, 182.63, -0.1936, 0, 0.0666, 0, -0.0562, 0},
    {2, 0, 0, -2, -1, 199.84, 0.0489, 0, -0.0154, 0, 0.013, 0},
    {2, 0, 0, -2, 0, 205.89, -0.5471, 0, 0.167, 0, -0.1409, 0},
    {2, 0, 0, -2, 1, 212.32, 0.0367, 0, -0.0108, 0, 0.0092, 0},
    {0, -1, 2, -2, 1, 346.6, -0.0451, 0, 0.0082, 0, -0.0069, 0},
    {0, 1, 0, 0, -1, 346.64, 0.0921, 0, -0.0167, 0, 0.0141, 0},
    {0, -1, 2, -2, 2, 365.22, 0.8281, 0, -0.1425, 0, 0.1202, 0},
    {0, 1, 0, 0, 0, 365.26, -15.8887, 0.153, 2.7332, 0.0263, -2.3068, -0.0222},
    {0, 1, 0, 0, 1, 386, -0.1382, 0, 0.0225, 0, -0.019, 0},
    {1, 0, 0, -1, 0, 411.78, 0.0348, 0, -0.0053, 0, 0.0045, 0},
    {2, 0, -2, 0, 0, -1095.18, -0.1372, 0, -0.0079, 0, 0.0066, 0},
    {-2, 0, 2, 0, 1, 1305.48, 0.4211, 0, -0.0203, 0, 0.0171, 0},
    {-1, 1, 0, 1, 0, 3232.86, -0.0404, 0, 0.0008, 0, -0.0007, 0},
    {0, 0, 0, 0, 2, -3399.19, 7.8998, 0, 0.146, 0, -0.1232, 0},
    {0, 0, 0, 0, 1, -6798.38, -1617.2681, 0, -14.9471, 0, 12.6153, 0}};
static const double LIB_UT[][11] = {
    {2, -2, 0, -2, 0, -2, 0.5377239, 0.05, -0.03, -0.3, -0.6},
    {2, 0, 0, -2, -2, -2, 0.5363232, 0.06, -0.03, -0.4, -0.7},
    {2, -1, 0, -2, 0, -2, 0.5274312, 0.35, -0.2, -2.4, -4.2},
    {2, 1, 0, -2, -2, -2, 0.5260835, 0.07, -0.04, -0.5, -0.8},
    {2, 0, 0, -2, 0, -1, 0.5175645, -0.07, 0.04, 0.5, 0.8},
    {2, 0, 0, -2, 0, -2, 0.5175251, 1.75, -1.01, -12.2, -21.3},
    {2, 1, 0, -2, 0, -2, 0.5079842, -0.05, 0.03, 0.3, 0.6},
    {2, 0, -1, -2, 2, -2, 0.5006854, 0.05, -0.03, -0.3, -0.6},
    {2, 0, 0, -2, 2, -2, 0.5, 0.76, -0.44, -5.5, -9.5},
    {2, 0, 0, 0, 0, 0, 0.4986348, 0.21, -0.12, -1.5, -2.6},
    {2, 0, 0, 0, 0, -1, 0.4985982, 0.06, -0.04, -0.4, -0.8}};
static const double LIB_PM[][11] = {
    {1, -1, 0, -2, 0, -1, 1.1196992, -0.4, 0.3, -0.3, -0.4},
    {1, -1, 0, -2, 0, -2, 1.1195149, -2.3, 1.3, -1.3, -2.3},
    {1, 1, 0, -2, -2, -2, 1.1134606, -0.4, 0.3, -0.3, -0.4},
    {1, 0, 0, -2, 0, -1, 1.0759762, -2.1, 1.2, -1.2, -2.1},
    {1, 0, 0, -2, 0, -2, 1.0758059, -11.4, 6.5, -6.5, -11.4},
    {1, -1, 0, 0, 0, 0, 1.0347187, 0.8, -0.5, 0.5, 0.8},
    {1, 0, 0, -2, 2, -2, 1.0027454, -4.8, 2.7, -2.7, -4.8},
    {1, 0, 0, 0, 0, 0, 0.9972696, 14.3, -8.2, 8.2, 14.3},
    {1, 0, 0, 0, 0, -1, 0.9971233, 1.9, -1.1, 1.1, 1.9},
    {1, 1, 0, 0, 0, 0, 0.9624365, 0.8, -0.4, 0.4, 0.8}};
static const double OCEAN[][14] = {
    {1, -4, 2, 1, 0, 0, 0, 0.9, -0.9, -0.1, 0.4, -0.08, -0.4, -2.1},
    {1, -3, 0, 2, -1, 0, 0.1, 0.6, -0.6, 0.1, 0.19, -0.06, -0.3, -1.1},
    {1, -3, 0, 2, 0, 0, 0.3, 3.4, -3.4, 0.3, 1.03, -0.31, -1.7, -5.6},
    {1, -3, 2, 0, -1, 0, 0.1, 0.8, -0.8, 0.1, 0.22, -0.07, -0.4, -1.2},
    {1, -3, 2, 0, 0, 0, 0.5, 4.2, -4.1, 0.5, 1.19, -0.39, -2.1, -6.4},
    {1, -2, 0, 1, -1, 0, 1.2, 5, -5, 1.2, 0.97, -0.47, -2.7, -5.4},
    {1, -2, 0, 1, 0, 0, 6.2, 26.3, -26.3, 6.2, 5.12, -2.5, -14, -28.7},
    {1, -2, 2, -1, -1, 0, 0.2, 0.9, -0.9, 0.2, 0.17, -0.09, -0.5, -1},
    {1, -2, 2, -1, 0, 0, 1.3, 5, -5, 1.3, 0.91, -0.47, -2.7, -5.1},
    {1, -1, 0, 0, -2, 0, -0.3, -0.8, 0.8, -0.3, -0.09, 0.07, 0.4, 0.5},
    {1, -1, 0, 0, -1, 0, 9.2, 25.1, -25.1, 9.2, 3.03, -2.28, -13.3, -17.7},
    {1, -1, 0, 0, 0, 0, 48.8, 132.9, -132.9, 48.8, 16.02, -12.07, -70.5, -93.6},
    {1, -1, 0, 2, 0, 0, -0.3, -0.9, 0.9, -0.3, -0.1, 0.08, 0.5, 0.6},
    {1, -1, 2, 0, 0, 0, -0.7, -1.7, 1.7, -0.7, -0.19, 0.15, 0.9, 1.1},
    {1, 0, -2, 1, 0, 0, -0.4, -0.9, 0.9, -0.4, -0.08, 0.07, 0.5, 0.5},
    {1, 0, 0, -1, -1, 0, -0.3, -0.6, 0.6, -0.3, -0.06, 0.05, 0.3, 0.4},
    {1, 0, 0, -1, 0, 0, -1.6, -3.5, 3.5, -1.6, -0.31, 0.27, 1.7, 1.9},
    {1, 0, 0, 1, 0, 0, -4.5, -9.6, 9.6, -4.5, -0.86, 0.75, 4.6, 5.2},
    {1, 0, 0, 1, 1, 0, -0.9, -1.9, 1.9, -0.9, -0.17, 0.15, 0.9, 1},
    {1, 0, 2, -1, 0, 0, -0.9, -1.8, 1.8, -0.9, -0.16, 0.14, 0.8, 1},
    {1, 1, -3, 0, 0, 1, 1.5, 3, -3, 1.5, 0.31, -0.19, -1.2, -2},
    {1, 1, -2, 0, -1, 0, -0.3, -0.6, 0.6, -0.3, -0.06, 0.03, 0.2, 0.4},
    {1, 1, -2, 0, 0, 0, 26.1, 51.2, -51.2, 26.1, 5.51, -3.1, -19.4, -34.5},
    {1, 1, -1, 0, 0, -1, -0.2, -0.4, 0.4, -0.2, -0.05, 0.02, 0.2, 0.3},
    {1, 1, -1, 0, 0, 1, -0.6, -1.2, 1.2, -0.6, -0.13, 0.07, 0.4, 0.8},
    {1, 1, 0, 0, -1, 0, 1.5, 3, -3, 1.5, 0.35, -0.17, -1.1, -2.2},
    {1, 1, 0, 0, 0, 0, -77.5, -151.7, 151.7, -77.5, -17.62, 8.55, 53.9, 111},
    {1, 1, 0, 0, 1, 0, -10.5, -20.6, 20.6, -10.5, -2.39, 1.16, 7.3, 15.1},
    {1, 1, 0, 0, 2, 0, 0.2, 0.4, -0.4, 0.2, 0.05, -0.03, -0.2, -0.3},
    {1, 1, 1, 0, 0, -1, -0.6, -1.2, 1.2, -0.6, -0.14, 0.06, 0.4, 0.9},
    {1, 1, 2, 0, 0, 0, -1.1, -2.1, 2.1, -1.1, -0.27, 0.11, 0.7, 1.7},
    {1, 2, -2, 1, 0, 0, -0.7, -1.4, 1.4, -0.7, -0.29, 0.04, 0.3, 1.9},
    {1, 2, 0, -1, 0, 0, -3.5, -7.3, 7.3, -3.5, -1.61, 0.19, 1.2, 10.5},
    {1, 2, 0, -1, 1, 0, -0.7, -1.4, 1.4, -0.7, -0.32, 0.04, 0.2, 2.1},
    {1, 3, -2, 0, 0, 0, -0.4, -1.1, 1.1, -0.4, -0.41, -0.01, -0, 2.7},
    {1, 3, 0, -2, 0, 0, -0.2, -0.5, 0.5, -0.2, -0.21, -0.01, -0, 1.4},
    {1, 3, 0, 0, 0, 0, -1.1, -3.4, 3.4, -1.1, -1.44, -0.04, -0.3, 9.7},
    {1, 3, 0, 0, 1, 0, -0.7, -2.2, 2.2, -0.7, -0.92, -0.02, -0.2, 6.2},
    {1, 3, 0, 0, 2, 0, -0.1, -0.5, 0.5, -0.1, -0.19, 0, -0, 1.3},
    {1, 4, 0, -1, 0, 0, 0, -0.6, 0.6, 0, -0.4, -0.02, -0.2, 2.8},
    {1, 4, 0, -1, 1, 0, 0, -0.4, 0.4, 0, -0.25, -0.02, -0.1, 1.8},
    {2, -3, 0, 3, 0, 0, -0.5, 0, 0.6, 0.2, -0.09, -0.01, -0.1, 1},
    {2, -3, 2, 1, 0, 0, -1.3, -0.2, 1.5, 0.7, -0.22, -0.03, -0.4, 2.6},
    {2, -2, 0, 2, 0, 0, -6.1, -1.6, 3.1, 3.4, -0.64, -0.18, -2.1, 7.4},
    {2, -2, 2, 0, 0, 0, -7.6, -2, 3.4, 4.2, -0.74, -0.22, -2.6, 8.7},
    {2, -2, 3, 0, 0, -1, -0.5, -0.1, 0.2, 0.3, -0.05, -0.02, -0.2, 0.6},
    {2, -1, -1, 1, 0, 1, 0.5, 0.1, -0.1, -0.3, 0.03, 0.01, 0.2, -0.4},
    {2, -1, 0, 1, -1, 0, 2.1, 0.5, -0.4, -1.2, 0.14, 0.06, 0.7, -1.7},
    {2, -1, 0, 1, 0, 0, -56.9, -12.9, 11.1, 32.9, -3.79, -1.56, -18.6, 45.2},
    {2, -1, 1, 1, 0, -1, -0.5, -0.1, 0.1, 0.3, -0.03, -0.01, -0.2, 0.4},
    {2, -1, 2, -1, 0, 0, -11, -2.4, 1.9, 6.4, -0.7, -0.3, -3.6, 8.3},
    {2, -1, 3, -1, 0, -1, -0.5, -0.1, 0.1, 0.3, -0.03, -0.01, -0.2, 0.4},
    {2, 0, -2, 2, 0, 0, 1, 0.1, -0.1, -0.6, 0.05, 0.02, 0.3, -0.6},
    {2, 0, -1, 0, 0, 1, 1.1, 0.1, -0.1, -0.7, 0.06, 0.03, 0.3, -0.7},
    {2, 0, 0, 0, -1, 0, 12.3, 1, -1.4, -7.3, 0.6, 0.27, 3.2, -7.3},
    {2, 0, 0, 0, 0, 0, -330.2, -27, 37.6, 195.9, -16.19, -7.25, -86.8, 196.6},
    {2, 0, 1, 0, 0, -1, -1, -0.1, 0.1, 0.6, -0.05, -0.02, -0.3, 0.6},
    {2, 1, -2, 1, 0, 0, 2.5, -0.3, -0.4, -1.5, 0.11, 0.03, 0.4, -1.4},
    {2, 1, 0, -1, 0, 0, 9.4, -1.4, -1.9, -5.6, 0.42, 0.12, 1.4, -5.3},
    {2, 1, 0, 1, 0, 0, -2.4, 0.4, 0.5, 1.4, -0.11, -0.03, -0.4, 1.3},
    {2, 1, 0, 1, 1, 0, -1, 0.2, 0.2, 0.6, -0.05, -0.01, -0.2, 0.6},
    {2, 2, -3, 0, 0, 1, -8.5, 3.5, 3.3, 5.1, -0.44, -0.02, -0.2, 5.5},
    {2, 2, -2, 0, 0, 0, -144.1, 63.6, 59.2, 86.6, -7.55, -0.16, -2, 94.8},
    {2, 2, -1, 0, 0, -1, 1.2, -0.6, -0.5, -0.7, 0.06, 0, 0, -0.8},
    {2, 2, 0, 0, -1, 0, 0.5, -0.2, -0.2, -0.3, 0.03, 0, -0, -0.3},
    {2, 2, 0, 0, 0, 0, -38.5, 19.1, 17.7, 23.1, -2.1, 0.04, 0.5, 26.5},
    {2, 2, 0, 0, 1, 0, -11.4, 5.8, 5.3, 6.9, -0.63, 0.01, 0.2, 7.9},
    {2, 2, 0, 0, 2, 0, -1.2, 0.6, 0.6, 0.7, -0.07, 0, 0, 0.9},
    {2, 3, 0, -1, 0, 0, -1.8, 1.8, 1.7, 1, -0.15, 0.04, 0.5, 1.9},
    {2, 3, 0, -1, 1, 0, -0.8, 0.8, 0.8, 0.5, -0.06, 0.02, 0.2, 0.8},
    {2, 4, 0, 0, 0, 0, -0.3, 0.6, 0.7, 0.2, -0.05, 0.02, 0.2, 0.6}};
