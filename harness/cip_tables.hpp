/* IERS Conventions (2010), Tables 5.2a (X), 5.2b (Y) and 5.2d (s + XY/2), in
 * microarcseconds: power of t, multipliers of l l' F D Om and the longitudes of
 * Mercury to Neptune and p_A, amplitudes of sine and cosine. */
#pragma once
struct CipTerm { int j, n[14]; double s, c; };
static const CipTerm CIP_X[] = {
{0,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-6844318.44,1328.67},
{0,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},-523908.04,-544.75},
{0,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},-90552.22,111.23},
{0,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},82168.76,-27.64},
{0,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},58707.02,470.05},
{0,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},28288.28,-34.69},
{0,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},-20557.78,-20.84},
{0,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},-15406.85,15.12},
{0,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},-11991.74,32.46},
{0,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},-8584.95,4.42},
{0,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},-6245.02,-6.68},
{0,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},5095.5,7.19},
{0,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},-4910.93,0.76},
{0,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},2521.07,-5.97},
{0,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},2511.85,1.07},
{0,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},2372.58,5.93},
{0,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},2307.58,-7.52},
{0,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},-2053.16,5.13},
{0,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},1898.27,-0.72},
{0,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-1825.49,1.23},
{0,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},-1534.09,6.29},
{0,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},-1292.02,0},
{0,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},-1234.96,5.21},
{0,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},1163.22,-2.94},
{0,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},1137.48,-0.04},
{0,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},1029.7,-2.63},
{0,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},-866.48,0.52},
{0,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-813.13,0.4},
{0,{0,2,0,0,0,0,0,0,0,0,0,0,0,0},664.57,-0.4},
{0,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},-628.24,-0.64},
{0,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},-603.52,0.44},
{0,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},-556.26,3.16},
{0,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},-512.37,-1.47},
{0,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},506.65,2.54},
{0,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0},438.51,-0.56},
{0,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},405.91,0.99},
{0,{0,0,1,-1,1,0,0,-1,0,-2,5,0,0,0},-122.67,203.78},
{0,{1,0,2,2,2,0,0,0,0,0,0,0,0,0},-305.78,1.75},
{0,{0,1,2,0,2,0,0,0,0,0,0,0,0,0},300.99,-0.44},
{0,{1,1,0,-2,0,0,0,0,0,0,0,0,0,0},-292.37,-0.32},
{0,{0,1,-2,0,-2,0,0,0,0,0,0,0,0,0},284.09,0.32},
{0,{0,0,2,2,1,0,0,0,0,0,0,0,0,0},-264.02,0.99},
{0,{1,0,0,2,0,0,0,0,0,0,0,0,0,0},261.54,-0.95},
{0,{2,0,2,-2,2,0,0,0,0,0,0,0,0,0},256.3,-0.28},
{0,{0,0,0,2,1,0,0,0,0,0,0,0,0,0},-250.54,0.08},
{0,{1,0,2,-2,1,0,0,0,0,0,0,0,0,0},230.72,0.08},
{0,{2,0,0,-2,-1,0,0,0,0,0,0,0,0,0},229.78,-0.6},
{0,{2,0,2,0,1,0,0,0,0,0,0,0,0,0},-212.82,0.84},
{0,{0,0,0,2,-1,0,0,0,0,0,0,0,0,0},196.64,-0.84},
{0,{0,1,-2,2,-1,0,0,0,0,0,0,0,0,0},188.95,-0.12},
{0,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0},187.95,-0.24},
{0,{1,0,0,-1,0,0,0,0,0,0,0,0,0,0},-160.15,-14.04},
{0,{0,1,0,-2,0,0,0,0,0,0,0,0,0,0},-172.95,-0.4},
{0,{0,0,0,1,0,0,0,0,0,0,0,0,0,0},-168.26,0.2},
{0,{2,0,0,-2,1,0,0,0,0,0,0,0,0,0},161.79,0.24},
{0,{1,0,-2,0,0,0,0,0,0,0,0,0,0,0},161.34,0.2},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1},57.44,95.82},
{0,{0,1,2,-2,1,0,0,0,0,0,0,0,0,0},142.16,0.2},
{0,{1,1,0,0,0,0,0,0,0,0,0,0,0,0},-134.81,0.2},
{0,{1,0,2,0,0,0,0,0,0,0,0,0,0,0},132.81,-0.52},
{0,{1,-1,0,-1,0,0,0,0,0,0,0,0,0,0},-130.31,0.04},
{0,{2,0,-2,0,-2,0,0,0,0,0,0,0,0,0},121.98,-0.08},
{0,{3,0,2,0,2,0,0,0,0,0,0,0,0,0},-115.4,0.6},
{0,{1,-1,2,0,2,0,0,0,0,0,0,0,0,0},-114.49,0.32},
{0,{1,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},112.14,0.28},
{0,{0,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},105.29,0.44},
{0,{1,1,2,0,2,0,0,0,0,0,0,0,0,0},98.69,-0.28},
{0,{2,0,0,0,-1,0,0,0,0,0,0,0,0,0},91.31,-0.4},
{0,{2,0,0,0,1,0,0,0,0,0,0,0,0,0},86.74,-0.08},
{0,{0,0,0,0,0,0,0,4,-8,3,0,0,0,0},-18.38,63.8},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2},82.14,0},
{0,{1,0,-2,2,-1,0,0,0,0,0,0,0,0,0},79.03,-0.24},
{0,{0,1,-1,1,-1,0,0,0,0,0,0,0,0,0},0,-79.08},
{0,{1,0,0,0,2,0,0,0,0,0,0,0,0,0},-78.56,0},
{0,{0,0,1,-1,1,0,-8,12,0,0,0,0,0,0},47.73,23.79},
{0,{0,0,2,1,2,0,0,0,0,0,0,0,0,0},66.03,-0.2},
{0,{3,0,0,0,0,0,0,0,0,0,0,0,0,0},62.65,-0.24},
{0,{1,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},60.5,0.36},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,0},59.07,0},
{0,{0,0,0,0,0,0,0,8,-16,4,5,0,0,0},57.28,0},
{0,{1,0,0,0,-2,0,0,0,0,0,0,0,0,0},-55.66,0.16},
{0,{2,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-54.81,-0.08},
{0,{1,0,0,-4,0,0,0,0,0,0,0,0,0,0},-53.22,-0.2},
{0,{1,0,2,2,1,0,0,0,0,0,0,0,0,0},-52.95,0.32},
{0,{1,-1,0,-1,-1,0,0,0,0,0,0,0,0,0},-52.27,0},
{0,{1,1,2,-2,2,0,0,0,0,0,0,0,0,0},51.32,0},
{0,{2,0,0,-4,0,0,0,0,0,0,0,0,0,0},-51,-0.12},
{0,{0,2,-2,2,-1,0,0,0,0,0,0,0,0,0},51.02,0},
{0,{0,0,0,0,0,0,0,1,0,-1,0,0,0,0},-48.65,-1.15},
{0,{2,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},48.29,0.2},
{0,{0,0,0,0,0,0,0,0,0,2,0,0,0,2},-46.38,0},
{0,{1,0,-4,0,-2,0,0,0,0,0,0,0,0,0},-45.59,-0.12},
{0,{2,0,2,2,2,0,0,0,0,0,0,0,0,0},-43.76,0.36},
{0,{1,0,0,-1,-1,0,0,0,0,0,0,0,0,0},-40.58,-1},
{0,{1,0,-1,0,-1,0,0,0,0,0,0,0,0,0},0,-41.53},
{0,{2,0,2,-2,1,0,0,0,0,0,0,0,0,0},40.54,-0.04},
{0,{2,1,0,-2,0,0,0,0,0,0,0,0,0,0},40.33,-0.04},
{0,{1,0,0,2,1,0,0,0,0,0,0,0,0,0},-38.57,0.08},
{0,{1,-1,0,-2,0,0,0,0,0,0,0,0,0,0},37.75,0.04},
{0,{3,0,2,-2,2,0,0,0,0,0,0,0,0,0},37.15,-0.12},
{0,{0,0,4,-2,2,0,0,0,0,0,0,0,0,0},36.68,-0.04},
{0,{0,0,0,0,1,0,0,-1,2,0,0,0,0,0},-18.3,-17.3},
{0,{0,0,0,0,0,0,0,1,-2,0,0,0,0,0},-17.86,17.1},
{0,{0,1,-2,2,0,0,0,0,0,0,0,0,0,0},-34.81,0.04},
{0,{0,0,2,-2,-1,0,0,0,0,0,0,0,0,0},-33.22,0.08},
{0,{0,1,2,0,1,0,0,0,0,0,0,0,0,0},32.43,-0.04},
{0,{1,0,2,-2,0,0,0,0,0,0,0,0,0,0},-30.47,0.04},
{0,{1,1,0,-2,-1,0,0,0,0,0,0,0,0,0},-29.53,0.04},
{0,{2,0,-2,0,1,0,0,0,0,0,0,0,0,0},28.5,-0.08},
{0,{0,1,0,0,2,0,0,0,0,0,0,0,0,0},28.35,-0.16},
{0,{0,0,2,-1,2,0,0,0,0,0,0,0,0,0},-28,0},
{0,{0,0,2,4,2,0,0,0,0,0,0,0,0,0},-27.61,0.2},
{0,{0,1,0,2,0,0,0,0,0,0,0,0,0,0},-26.77,0.08},
{0,{0,0,2,0,-1,0,0,0,0,0,0,0,0,0},26.54,-0.12},
{0,{0,1,-2,0,-1,0,0,0,0,0,0,0,0,0},26.54,0.04},
{0,{0,1,2,-2,0,0,0,0,0,0,0,0,0,0},-26.17,0},
{0,{1,0,-2,-2,0,0,0,0,0,0,0,0,0,0},-25.42,-0.08},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1},-16.91,8.43},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,0},0.32,24.42},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,0},-19.53,5.09},
{0,{0,0,0,0,0,0,2,-2,0,0,0,0,0,0},-23.79,0},
{0,{1,-1,0,-1,-2,0,0,0,0,0,0,0,0,0},23.66,0},
{0,{1,-1,2,2,2,0,0,0,0,0,0,0,0,0},-23.47,0.16},
{0,{2,0,0,2,0,0,0,0,0,0,0,0,0,0},23.39,-0.12},
{0,{0,1,0,0,-2,0,0,0,0,0,0,0,0,0},-23.49,0},
{0,{1,1,0,-2,1,0,0,0,0,0,0,0,0,0},-23.28,-0.08},
{0,{1,0,-2,2,0,0,0,0,0,0,0,0,0,0},-22.99,0.04},
{0,{1,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-22.67,-0.08},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,0},9.35,13.29},
{0,{0,1,0,1,0,0,0,0,0,0,0,0,0,0},22.47,-0.04},
{0,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2},4.89,-16.55},
{0,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2},4.89,-16.51},
{0,{0,1,2,2,2,0,0,0,0,0,0,0,0,0},21.28,-0.08},
{0,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2},20.57,0.64},
{0,{1,-1,0,0,1,0,0,0,0,0,0,0,0,0},21.01,0},
{0,{0,0,1,-1,1,0,0,-1,0,2,-5,0,0,0},1.23,-19.13},
{0,{3,0,2,0,1,0,0,0,0,0,0,0,0,0},-19.97,0.12},
{0,{0,0,0,4,0,0,0,0,0,0,0,0,0,0},19.65,-0.08},
{0,{1,0,0,2,-1,0,0,0,0,0,0,0,0,0},19.58,-0.12},
{0,{1,-1,0,2,0,0,0,0,0,0,0,0,0,0},19.61,-0.08},
{0,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2},-19.49,0},
{0,{2,-1,2,0,2,0,0,0,0,0,0,0,0,0},-19.41,0.08},
{0,{0,0,0,2,2,0,0,0,0,0,0,0,0,0},-18.64,0},
{0,{1,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},18.58,0.04},
{0,{1,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},-18.42,0},
{0,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2},18.22,0},
{0,{0,0,2,-2,1,0,-5,6,0,0,0,0,0,0},-0.72,-17.34},
{0,{1,0,2,-4,1,0,0,0,0,0,0,0,0,0},-18.02,-0.04},
{0,{0,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},17.74,0.08},
{0,{2,0,0,-2,0,0,0,-2,0,2,0,0,0,0},17.46,0},
{0,{0,3,2,-2,2,0,0,0,0,0,0,0,0,0},-17.42,0},
{0,{0,0,0,0,0,0,0,1,0,-2,0,0,0,0},-6.6,10.7},
{0,{0,0,0,0,0,0,0,2,0,-2,0,0,0,0},16.43,0.52},
{0,{1,-1,2,0,1,0,0,0,0,0,0,0,0,0},-16.75,0.04},
{0,{0,0,2,2,0,0,0,0,0,0,0,0,0,0},16.55,-0.08},
{0,{2,1,2,0,2,0,0,0,0,0,0,0,0,0},16.39,-0.08},
{0,{2,0,0,-2,0,0,0,-2,0,3,0,0,0,0},13.88,-2.47},
{0,{1,0,0,-2,-2,0,0,0,0,0,0,0,0,0},15.69,0},
{0,{0,0,0,1,1,0,0,0,0,0,0,0,0,0},-15.52,0},
{0,{0,0,0,0,1,0,0,-4,8,-3,0,0,0,0},3.34,11.86},
{0,{0,0,0,0,0,0,2,0,0,0,0,0,0,2},14.72,-0.32},
{0,{2,-1,0,0,0,0,0,0,0,0,0,0,0,0},14.92,-0.04},
{0,{0,0,0,0,1,0,0,4,-8,3,0,0,0,0},-3.26,11.62},
{0,{0,0,0,0,0,0,0,2,-2,0,0,0,0,0},-14.64,0},
{0,{1,0,-1,0,-2,0,0,0,0,0,0,0,0,0},0,14.47},
{0,{1,1,0,0,1,0,0,0,0,0,0,0,0,0},-14.37,0},
{0,{1,1,2,0,1,0,0,0,0,0,0,0,0,0},14.32,-0.04},
{0,{1,0,-2,2,-2,0,0,0,0,0,0,0,0,0},-14.1,0.04},
{0,{0,0,1,-1,1,0,0,0,-2,0,0,0,0,0},10.86,3.18},
{0,{0,0,1,-1,0,0,0,0,-2,0,0,0,0,0},-10.58,-3.1},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,0},-3.62,9.86},
{0,{0,0,0,0,0,0,1,1,0,0,0,0,0,2},-13.48,0},
{0,{1,0,2,1,2,0,0,0,0,0,0,0,0,0},13.41,-0.04},
{0,{2,0,2,0,0,0,0,0,0,0,0,0,0,0},13.32,-0.08},
{0,{0,1,0,-2,1,0,0,0,0,0,0,0,0,0},-13.33,-0.04},
{0,{1,0,2,-1,2,0,0,0,0,0,0,0,0,0},-13.29,0},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,0},-0.2,13.05},
{0,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0},0,13.13},
{0,{1,0,0,0,0,0,-18,16,0,0,0,0,0,0},-8.99,4.02},
{0,{1,0,0,1,0,0,0,0,0,0,0,0,0,0},-12.93,0.04},
{0,{0,0,0,0,0,0,0,0,0,2,0,0,0,1},2.03,10.82},
{0,{0,0,0,1,-1,0,0,0,0,0,0,0,0,0},-12.78,0.04},
{0,{1,0,0,-2,2,0,0,0,0,0,0,0,0,0},12.24,0.04},
{0,{1,0,0,0,0,0,-10,3,0,0,0,0,0,0},8.71,3.54},
{0,{1,-1,0,0,-1,0,0,0,0,0,0,0,0,0},11.98,-0.04},
{0,{2,1,0,0,0,0,0,0,0,0,0,0,0,0},-11.38,0.04},
{0,{2,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},-11.3,0},
{0,{0,0,2,1,1,0,0,0,0,0,0,0,0,0},11.14,-0.04},
{0,{0,3,0,0,0,0,0,0,0,0,0,0,0,0},10.98,0},
{0,{1,2,0,-2,0,0,0,0,0,0,0,0,0,0},-10.98,0},
{0,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2},0.44,-10.38},
{0,{1,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},10.46,0.08},
{0,{0,0,0,0,0,0,0,1,0,1,0,0,0,2},-10.42,0},
{0,{4,0,2,0,2,0,0,0,0,0,0,0,0,0},-10.3,0.08},
{0,{0,0,1,-1,1,0,0,-1,0,0,-1,0,0,0},6.92,3.34},
{0,{1,0,-2,0,1,0,0,0,0,0,0,0,0,0},10.07,0.04},
{0,{2,1,2,-2,2,0,0,0,0,0,0,0,0,0},10.02,0},
{0,{0,1,2,1,2,0,0,0,0,0,0,0,0,0},-9.75,0.04},
{0,{1,1,2,-2,1,0,0,0,0,0,0,0,0,0},9.75,0},
{0,{0,0,1,-1,1,0,0,-1,0,-1,0,0,0,0},-1.99,7.72},
{0,{1,0,4,-2,2,0,0,0,0,0,0,0,0,0},9.67,-0.04},
{0,{0,0,2,-2,0,0,-5,6,0,0,0,0,0,0},0.4,9.27},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,0},-3.42,6.09},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1},0.56,-8.67},
{0,{2,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-9.19,0},
{0,{1,0,-2,1,-1,0,0,0,0,0,0,0,0,0},9.11,0},
{0,{2,-2,0,-2,0,0,0,0,0,0,0,0,0,0},9.07,0},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2},1.63,6.96},
{0,{0,2,0,-2,0,0,0,0,0,0,0,0,0,0},-8.47,0},
{0,{1,1,0,0,-1,0,0,0,0,0,0,0,0,0},-8.28,0.04},
{0,{2,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},8.27,0.04},
{0,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2},-8.04,0},
{0,{0,1,0,2,1,0,0,0,0,0,0,0,0,0},7.91,0},
{0,{1,0,-4,0,-1,0,0,0,0,0,0,0,0,0},-7.84,-0.04},
{0,{1,0,2,0,2,0,0,1,0,0,0,0,0,0},5.21,-2.51},
{0,{2,0,2,2,1,0,0,0,0,0,0,0,0,0},-7.64,0.08},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,0},-5.77,1.87},
{0,{1,0,-2,0,-2,0,0,4,-8,3,0,0,0,0},5.01,-2.51},
{0,{0,0,2,-3,2,0,0,0,0,0,0,0,0,0},-7.48,0},
{0,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2},-7.32,-0.12},
{0,{0,0,4,0,2,0,0,0,0,0,0,0,0,0},7.4,-0.04},
{0,{1,0,0,-4,-1,0,0,0,0,0,0,0,0,0},7.44,0},
{0,{1,0,0,-1,1,0,0,0,0,0,0,0,0,0},6.32,-1.11},
{0,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2},-6.13,-1.19},
{0,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2},0.2,-6.88},
{0,{0,0,0,0,0,0,0,2,0,1,0,0,0,2},6.48,-0.48},
{0,{1,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},6.92,0.04},
{0,{2,0,0,-2,-2,0,0,0,0,0,0,0,0,0},-6.94,0},
{0,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2},2.47,-4.46},
{0,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2},-2.23,-4.65},
{0,{0,0,1,-1,1,0,0,-1,0,2,0,0,0,0},-1.07,-5.69},
{0,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2},4.97,-1.71},
{0,{0,0,1,-1,1,0,-5,7,0,0,0,0,0,0},5.57,1.07},
{0,{0,0,0,0,0,0,0,0,0,0,2,0,0,1},2.03,4.53},
{0,{1,0,2,4,2,0,0,0,0,0,0,0,0,0},-6.48,0.08},
{0,{1,0,0,-2,0,0,19,-21,3,0,0,0,0,0},4.1,-2.39},
{0,{0,0,1,0,1,0,0,0,0,0,0,0,0,0},0,-6.44},
{0,{3,0,0,-4,0,0,0,0,0,0,0,0,0,0},-6.4,0},
{0,{1,1,-2,0,-2,0,0,0,0,0,0,0,0,0},6.32,0},
{0,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2},2.67,-3.62},
{0,{0,0,1,-1,1,0,0,-1,0,0,2,0,0,0},-1.91,-4.38},
{0,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2},-2.43,-3.82},
{0,{0,1,0,-2,-1,0,0,0,0,0,0,0,0,0},6.2,0},
{0,{0,0,0,0,0,0,0,1,2,0,0,0,0,2},-3.38,-2.78},
{0,{0,0,0,4,1,0,0,0,0,0,0,0,0,0},-6.12,0.04},
{0,{0,0,2,-4,1,0,0,0,0,0,0,0,0,0},-6.09,-0.04},
{0,{1,1,0,-4,0,0,0,0,0,0,0,0,0,0},-6.01,-0.04},
{0,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2},3.18,-2.82},
{0,{0,0,0,0,0,0,0,0,0,3,0,0,0,2},-5.05,0.84},
{0,{3,0,2,-2,1,0,0,0,0,0,0,0,0,0},5.85,0},
{0,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2},5.69,-0.12},
{0,{1,1,2,2,2,0,0,0,0,0,0,0,0,0},5.73,-0.04},
{0,{0,0,4,-2,1,0,0,0,0,0,0,0,0,0},5.61,0},
{0,{2,0,0,-2,0,0,-3,3,0,0,0,0,0,0},5.49,0},
{0,{3,0,2,2,2,0,0,0,0,0,0,0,0,0},-5.33,0.04},
{0,{0,0,0,0,0,0,0,0,0,0,2,0,0,2},-5.29,0},
{0,{2,1,0,-2,-1,0,0,0,0,0,0,0,0,0},5.25,0},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1},-0.99,4.22},
{0,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1},0.99,4.22},
{0,{1,0,0,-1,0,0,-3,4,0,0,0,0,0,0},0,5.21},
{0,{0,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},5.13,0.04},
{0,{2,0,0,-4,-1,0,0,0,0,0,0,0,0,0},-4.9,0},
{0,{0,0,0,0,0,0,0,3,-4,0,0,0,0,0},-3.1,1.79},
{0,{0,0,2,4,1,0,0,0,0,0,0,0,0,0},-4.81,0.04},
{0,{0,0,0,2,-2,0,0,0,0,0,0,0,0,0},-4.75,0},
{0,{3,0,0,0,-1,0,0,0,0,0,0,0,0,0},4.7,-0.04},
{0,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2},-4.69,0},
{0,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2},-4.65,0},
{0,{0,0,2,-2,1,0,-3,3,0,0,0,0,0,0},4.65,0},
{0,{2,1,0,-4,0,0,0,0,0,0,0,0,0,0},-4.57,0},
{0,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2},0,-4.53},
{0,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2},0,-4.53},
{0,{0,0,1,-1,1,0,0,3,-8,3,0,0,0,0},-4.53,0},
{0,{2,0,0,2,1,0,0,0,0,0,0,0,0,0},-4.53,0},
{0,{4,0,2,-2,2,0,0,0,0,0,0,0,0,0},4.49,-0.04},
{0,{1,-1,0,-2,-1,0,0,0,0,0,0,0,0,0},4.5,0},
{0,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2},-4.49,0},
{0,{0,0,0,0,1,0,8,-13,0,0,0,0,0,0},1.83,2.63},
{0,{2,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},4.38,0},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,0},0.88,-3.46},
{0,{0,0,0,0,0,0,0,2,-3,0,0,0,0,0},-2.7,1.55},
{0,{0,0,2,-1,1,0,0,0,0,0,0,0,0,0},-4.22,0},
{0,{1,1,0,2,0,0,0,0,0,0,0,0,0,0},-4.1,-0.12},
{0,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1},-3.5,0.68},
{0,{1,-1,-2,2,-1,0,0,0,0,0,0,0,0,0},4.18,0},
{0,{2,0,0,-2,1,0,0,-2,0,3,0,0,0,0},3.54,-0.64},
{0,{1,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},4.14,0},
{0,{1,0,0,-3,0,0,0,0,0,0,0,0,0,0},4.1,0},
{0,{2,0,0,-4,1,0,0,0,0,0,0,0,0,0},-4.06,0},
{0,{1,0,0,0,-1,0,-18,16,0,0,0,0,0,0},2.7,-1.35},
{0,{2,0,0,-2,2,0,0,0,0,0,0,0,0,0},-4.04,0},
{0,{1,-1,2,2,1,0,0,0,0,0,0,0,0,0},-3.98,0.04},
{0,{1,0,0,-4,1,0,0,0,0,0,0,0,0,0},-3.98,-0.04},
{0,{2,0,2,-4,1,0,0,0,0,0,0,0,0,0},4.02,0},
{0,{0,0,1,-1,0,0,0,-1,0,-1,0,0,0,0},0.84,-3.1},
{0,{0,0,1,-1,1,0,0,-5,8,-3,0,0,0,0},3.94,0},
{0,{0,0,0,0,0,0,0,2,0,-3,0,0,0,0},3.3,0.6},
{0,{0,0,0,0,1,0,-8,13,0,0,0,0,0,0},-1.59,2.27},
{0,{2,-1,0,-2,0,0,0,0,0,0,0,0,0,0},-3.66,-0.2},
{0,{2,0,0,-2,0,0,-6,8,0,0,0,0,0,0},-3.1,-0.72},
{0,{1,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},-3.82,0},
{0,{2,1,-2,0,-1,0,0,0,0,0,0,0,0,0},-3.62,-0.16},
{0,{0,1,-2,1,-2,0,0,0,0,0,0,0,0,0},-3.74,0},
{0,{0,2,-2,2,0,0,0,0,0,0,0,0,0,0},-3.74,0},
{0,{4,0,0,0,0,0,0,0,0,0,0,0,0,0},3.74,0},
{0,{0,2,0,0,1,0,0,0,0,0,0,0,0,0},-3.71,0},
{0,{0,0,0,0,1,0,0,0,0,-2,5,0,0,0},3.02,0.68},
{0,{0,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},3.66,0.04},
{0,{1,0,-4,2,-2,0,0,0,0,0,0,0,0,0},3.7,0},
{0,{2,-1,2,2,2,0,0,0,0,0,0,0,0,0},-3.66,0.04},
{0,{0,2,-2,0,-2,0,0,0,0,0,0,0,0,0},3.3,0.4},
{0,{1,0,-2,-3,-2,0,0,0,0,0,0,0,0,0},-3.62,0},
{0,{2,0,0,0,2,0,0,0,0,0,0,0,0,0},-3.61,0},
{0,{0,0,0,0,1,0,0,0,0,1,0,0,0,0},0.8,-2.78},
{0,{0,0,0,0,1,0,0,0,0,2,-5,0,0,0},-2.9,0.68},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,2},-3.54,0},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,0},3.54,0},
{0,{2,0,2,-2,0,0,0,0,0,0,0,0,0,0},-3.5,0},
{0,{0,2,2,-2,1,0,0,0,0,0,0,0,0,0},3.45,0},
{0,{0,0,0,0,0,0,0,6,-16,4,5,0,0,-2},0,-3.42},
{0,{1,-2,0,0,0,0,0,0,0,0,0,0,0,0},3.38,0},
{0,{1,0,0,0,1,0,-18,16,0,0,0,0,0,0},2.27,-1.11},
{0,{0,1,2,2,1,0,0,0,0,0,0,0,0,0},3.34,0},
{0,{1,-1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-3.34,0},
{0,{1,0,2,0,-1,0,0,0,0,0,0,0,0,0},3.31,0},
{0,{0,0,2,0,3,0,0,0,0,0,0,0,0,0},-3.3,0.01},
{0,{0,0,0,0,0,0,0,1,0,2,0,0,0,2},-1.39,-1.91},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,0},3.3,0},
{0,{1,0,-2,-1,-2,0,0,0,0,0,0,0,0,0},-3.3,0},
{0,{3,0,0,0,1,0,0,0,0,0,0,0,0,0},3.3,0},
{0,{1,0,2,2,0,0,0,0,0,0,0,0,0,0},3.22,-0.04},
{0,{1,0,0,4,0,0,0,0,0,0,0,0,0,0},3.26,0},
{0,{2,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},-3.26,0},
{0,{2,1,0,-2,1,0,0,0,0,0,0,0,0,0},3.26,0},
{0,{0,0,0,0,0,0,3,-7,0,0,0,0,0,-2},2.51,-0.64},
{0,{2,0,-4,0,-2,0,0,0,0,0,0,0,0,0},3.14,0},
{0,{0,0,1,-1,1,0,0,-1,0,0,1,0,0,0},-2.63,-0.48},
{0,{3,0,-2,0,-1,0,0,0,0,0,0,0,0,0},3.1,0},
{0,{1,-2,0,-2,0,0,0,0,0,0,0,0,0,0},2.94,-0.12},
{0,{2,-1,2,0,1,0,0,0,0,0,0,0,0,0},-3.06,0},
{0,{2,0,-2,2,-1,0,0,0,0,0,0,0,0,0},3.06,0},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,2},2.07,0.91},
{0,{0,0,0,0,0,0,0,1,0,0,-1,0,0,0},-2.98,0},
{0,{0,0,1,0,0,0,0,0,0,0,0,0,0,0},0,2.98},
{0,{1,0,2,-4,0,0,0,0,0,0,0,0,0,0},2.98,0},
{0,{0,0,0,0,0,0,0,0,2,0,0,0,0,2},-2.94,0},
{0,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-2},-2.94,0},
{0,{0,2,2,0,2,0,0,0,0,0,0,0,0,0},2.94,0},
{0,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-1},-0.56,-2.35},
{0,{1,-1,2,-2,2,0,0,0,0,0,0,0,0,0},-2.9,0},
{0,{0,0,0,0,1,0,0,1,-2,0,0,0,0,0},-1.47,1.39},
{0,{1,0,2,-4,2,0,0,0,0,0,0,0,0,0},2.8,0},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,2},2.15,-0.6},
{0,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-2},-0.12,2.63},
{0,{2,0,2,-1,2,0,0,0,0,0,0,0,0,0},-2.74,0},
{0,{1,1,-2,1,-1,0,0,0,0,0,0,0,0,0},-2.7,0},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,0},0.44,2.23},
{0,{0,0,0,0,0,0,0,8,-15,0,0,0,0,0},1.79,-0.88},
{0,{0,0,0,0,0,0,2,-2,0,0,0,0,0,-1},-0.48,2.19},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,-1},0.52,2.07},
{0,{0,1,0,-4,0,0,0,0,0,0,0,0,0,0},-2.59,0},
{0,{2,1,2,0,1,0,0,0,0,0,0,0,0,0},2.55,0},
{0,{0,0,0,0,0,0,0,1,0,-3,0,0,0,0},-1.11,1.43},
{0,{1,1,-2,0,-1,0,0,0,0,0,0,0,0,0},2.51,0},
{0,{2,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-2.51,0},
{0,{3,-1,2,0,2,0,0,0,0,0,0,0,0,0},-2.51,0},
{0,{1,0,-1,0,-3,0,0,0,0,0,0,0,0,0},0,-2.5},
{0,{1,-1,0,-2,1,0,0,0,0,0,0,0,0,0},2.47,0},
{0,{0,0,1,-1,0,0,0,-1,0,0,-1,0,0,0},1.67,0.8},
{0,{2,0,0,-2,-1,0,0,-2,0,3,0,0,0,0},2.11,-0.36},
{0,{0,2,0,0,-1,0,0,0,0,0,0,0,0,0},2.46,0},
{0,{1,0,-2,1,0,0,0,0,0,0,0,0,0,0},-2.43,0},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-1},-0.44,-1.95},
{0,{0,0,0,0,0,0,4,-6,0,0,0,0,0,0},-1.83,0.56},
{0,{1,0,2,-3,2,0,0,0,0,0,0,0,0,0},-2.39,0},
{0,{2,0,-2,-2,0,0,0,0,0,0,0,0,0,0},2.39,0},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,1},0.24,2.15},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,0},2.35,0},
{0,{1,0,2,1,1,0,0,0,0,0,0,0,0,0},2.27,0},
{0,{2,0,0,0,-2,0,0,0,0,0,0,0,0,0},-2.22,0},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,1},1.87,0.32},
{0,{0,0,1,-1,1,0,0,-2,2,0,0,0,0,0},-0.32,-1.87},
{0,{1,0,0,-1,1,0,0,-1,0,2,0,0,0,0},-1.03,-1.15},
{0,{0,0,0,0,0,0,0,3,-5,0,0,0,0,0},-0.8,1.35},
{0,{2,0,0,-2,1,0,0,-2,0,2,0,0,0,0},2.15,0},
{0,{0,0,0,0,0,0,0,1,-2,0,0,0,0,-1},-0.24,1.87},
{0,{0,0,0,0,0,0,5,-8,0,0,0,0,0,0},-0.56,-1.55},
{0,{0,0,1,-1,1,0,0,-1,0,1,0,0,0,0},-0.24,-1.87},
{0,{0,0,0,0,0,0,0,0,4,0,0,0,0,2},-0.84,-1.27},
{0,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-2},-1.99,0.12},
{0,{1,0,0,-1,0,0,0,-1,0,1,0,0,0,0},2.11,0},
{0,{1,1,2,1,2,0,0,0,0,0,0,0,0,0},-2.11,0},
{0,{3,1,2,0,2,0,0,0,0,0,0,0,0,0},2.11,0},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-2},2.03,0},
{0,{1,-2,2,0,2,0,0,0,0,0,0,0,0,0},-2.03,0},
{0,{2,-1,2,-2,2,0,0,0,0,0,0,0,0,0},2.03,0},
{0,{2,0,0,-3,0,0,0,0,0,0,0,0,0,0},2.03,0},
{0,{0,0,1,-1,1,0,-3,4,0,0,0,0,0,0},-0.4,1.59},
{0,{0,0,2,-2,1,0,0,-2,0,2,0,0,0,0},1.99,0},
{0,{0,1,0,1,1,0,0,0,0,0,0,0,0,0},1.95,0},
{0,{3,0,0,2,0,0,0,0,0,0,0,0,0,0},1.95,0},
{0,{0,0,0,0,0,0,0,5,-4,0,0,0,0,2},1.19,-0.72},
{0,{0,1,0,1,-1,0,0,0,0,0,0,0,0,0},1.91,0},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,-1},-1.27,0.6},
{0,{0,0,0,0,0,0,0,0,0,2,0,0,0,0},-0.99,0.88},
{0,{1,1,-2,2,-1,0,0,0,0,0,0,0,0,0},-1.87,0},
{0,{1,1,0,1,0,0,0,0,0,0,0,0,0,0},1.87,0},
{0,{2,-1,0,2,0,0,0,0,0,0,0,0,0,0},1.87,0},
{0,{2,0,2,1,2,0,0,0,0,0,0,0,0,0},1.87,0},
{0,{0,0,0,0,0,0,0,4,-4,0,0,0,0,2},0.72,-1.15},
{0,{2,0,-4,-2,-2,0,0,0,0,0,0,0,0,0},-1.83,0},
{0,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-2},0,-1.79},
{0,{0,1,0,2,-1,0,0,0,0,0,0,0,0,0},-1.79,0},
{0,{1,1,2,-4,1,0,0,0,0,0,0,0,0,0},-1.79,0},
{0,{1,2,2,-2,2,0,0,0,0,0,0,0,0,0},1.79,0},
{0,{4,0,2,0,1,0,0,0,0,0,0,0,0,0},-1.79,0},
{0,{0,0,0,0,0,0,0,4,0,-3,0,0,0,2},-1.47,-0.28},
{0,{0,0,4,-4,2,0,0,0,0,0,0,0,0,0},-1.75,0},
{0,{2,1,-2,0,0,0,0,0,0,0,0,0,0,0},1.75,0},
{0,{3,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-1.75,0},
{0,{0,0,0,0,0,0,0,1,0,2,-5,0,0,0},-0.52,-1.19},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,1},0.28,-1.43},
{0,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-1},0.32,1.39},
{0,{1,0,2,-3,1,0,0,0,0,0,0,0,0,0},-1.71,0},
{0,{2,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},1.71,0},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,-1},-0.32,1.35},
{0,{0,0,0,0,0,0,2,1,0,0,0,0,0,2},0.76,-0.91},
{0,{0,0,1,-1,0,0,-5,7,0,0,0,0,0,0},-1.39,-0.28},
{0,{0,1,2,1,1,0,0,0,0,0,0,0,0,0},-1.67,0},
{0,{2,0,0,2,-1,0,0,0,0,0,0,0,0,0},1.67,0},
{0,{2,1,2,-2,1,0,0,0,0,0,0,0,0,0},1.63,0},
{0,{0,0,0,0,0,0,0,4,-3,0,0,0,0,2},1.03,-0.56},
{0,{0,0,0,0,0,0,6,-6,0,0,0,0,0,0},1.59,0},
{0,{1,0,2,-1,1,0,0,0,0,0,0,0,0,0},-1.59,0},
{0,{0,0,0,0,0,0,0,4,-6,0,0,0,0,0},-0.64,0.91},
{0,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-1},-0.32,-1.23},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,1},-0.28,-1.27},
{0,{1,-1,2,-2,1,0,0,0,0,0,0,0,0,0},-1.55,0},
{0,{1,0,4,-2,1,0,0,0,0,0,0,0,0,0},1.55,0},
{0,{1,0,2,-2,-1,0,0,0,0,0,0,0,0,0},-1.51,0},
{0,{2,-2,0,-2,-1,0,0,0,0,0,0,0,0,0},1.51,0},
{0,{2,-1,0,-2,1,0,0,0,0,0,0,0,0,0},-1.51,0},
{0,{2,0,0,-1,0,0,0,0,0,0,0,0,0,0},1.51,0},
{0,{2,0,0,-2,0,0,0,-6,8,0,0,0,0,0},0.6,0.88},
{0,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-2},0.95,-0.52},
{0,{0,0,0,0,0,0,3,-1,0,0,0,0,0,2},1.23,-0.24},
{0,{0,0,2,3,2,0,0,0,0,0,0,0,0,0},1.47,0},
{0,{1,-1,0,2,1,0,0,0,0,0,0,0,0,0},-1.47,0},
{0,{2,0,4,-2,2,0,0,0,0,0,0,0,0,0},1.47,0},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,0,2,0},-0.68,-0.76},
{0,{0,0,1,-1,1,0,0,-1,0,-4,10,0,0,0},0.36,-1.07},
{0,{0,0,0,0,0,0,0,1,0,-4,0,0,0,-2},-1.19,-0.24},
{0,{0,0,2,0,2,0,0,1,0,0,0,0,0,0},-0.95,-0.48},
{0,{0,1,4,-2,2,0,0,0,0,0,0,0,0,0},1.43,0},
{0,{1,-1,0,2,-1,0,0,0,0,0,0,0,0,0},1.43,0},
{0,{1,0,-2,2,1,0,0,0,0,0,0,0,0,0},-1.43,0},
{0,{1,1,0,-1,0,0,0,0,0,0,0,0,0,0},1.43,0},
{0,{2,0,0,-2,0,0,0,-5,6,0,0,0,0,0},0.95,0.48},
{0,{2,0,2,0,2,0,0,2,0,-3,0,0,0,0},0.95,-0.48},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-1},0.56,0.84},
{0,{0,0,0,0,0,0,0,1,0,0,0,0,0,0},0.32,-1.07},
{0,{0,0,0,0,0,0,0,4,0,-1,0,0,0,2},-0.12,-1.27},
{0,{0,0,1,-1,1,0,-4,5,0,0,0,0,0,0},-0.28,1.11},
{0,{2,0,-1,-1,0,0,0,3,-7,0,0,0,0,0},1.03,-0.36},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-2},-0.44,-0.95},
{0,{0,0,0,0,0,0,0,2,0,-1,0,0,0,0},0,1.39},
{0,{0,0,0,4,-1,0,0,0,0,0,0,0,0,0},1.39,0},
{0,{0,0,1,-1,2,0,0,-1,0,0,2,0,0,0},0.44,0.95},
{0,{1,-2,-2,-2,-2,0,0,0,0,0,0,0,0,0},-1.39,0},
{0,{1,2,0,0,0,0,0,0,0,0,0,0,0,0},-1.39,0},
{0,{2,-1,0,0,1,0,0,0,0,0,0,0,0,0},1.39,0},
{0,{0,0,0,0,0,0,0,1,-8,3,0,0,0,-2},0.88,0.48},
{0,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-2},-1.35,0},
{0,{1,-1,-2,2,0,0,0,0,0,0,0,0,0,0},-1.35,0},
{0,{1,0,0,-2,0,0,0,-2,0,2,0,0,0,0},1.35,0},
{0,{1,0,0,-1,-2,0,0,0,0,0,0,0,0,0},1.35,0},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-1},-1.19,-0.12},
{0,{0,1,-2,2,1,0,0,0,0,0,0,0,0,0},-1.31,0},
{0,{1,0,-2,1,-2,0,0,0,0,0,0,0,0,0},1.31,0},
{0,{0,0,0,0,1,0,0,-2,4,0,0,0,0,0},-0.44,-0.84},
{0,{0,0,2,-2,1,0,0,-9,13,0,0,0,0,0},0.4,-0.88},
{0,{1,0,-2,0,-1,0,0,-1,0,0,0,0,0,0},0.84,-0.44},
{0,{1,0,2,0,1,0,0,-2,0,3,0,0,0,0},0.84,-0.44},
{0,{2,0,0,0,0,0,0,-2,0,3,0,0,0,0},-0.84,0.44},
{0,{0,0,0,0,0,0,1,0,0,0,0,0,0,0},-0.16,-1.11},
{0,{0,0,0,0,1,0,2,-3,0,0,0,0,0,0},0,-1.27},
{0,{0,0,4,0,1,0,0,0,0,0,0,0,0,0},1.27,0},
{0,{1,0,-4,-2,-2,0,0,0,0,0,0,0,0,0},-1.27,0},
{0,{1,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},1.27,0},
{0,{1,0,0,4,1,0,0,0,0,0,0,0,0,0},-1.27,0},
{0,{1,1,0,2,1,0,0,0,0,0,0,0,0,0},1.27,0},
{0,{2,0,2,-4,2,0,0,0,0,0,0,0,0,0},-1.27,0},
{0,{3,1,2,-2,2,0,0,0,0,0,0,0,0,0},1.27,0},
{0,{0,0,0,0,0,0,0,3,-6,0,0,0,0,0},0,1.23},
{0,{0,0,1,1,1,0,0,1,0,0,0,0,0,0},-0.12,1.11},
{0,{0,0,2,-1,0,0,0,0,0,0,0,0,0,0},1.23,0},
{0,{1,-2,2,2,2,0,0,0,0,0,0,0,0,0},-1.23,0},
{0,{1,-1,-2,-4,-2,0,0,0,0,0,0,0,0,0},-1.23,0},
{0,{0,0,2,-4,2,0,0,0,0,0,0,0,0,0},1.22,0},
{0,{0,0,0,0,0,0,0,3,-8,3,0,0,0,0},-0.76,-0.44},
{0,{0,0,0,0,0,0,0,1,-2,0,0,0,0,1},0.91,0.28},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,-1},-0.24,0.95},
{0,{0,0,1,0,2,0,0,0,0,0,0,0,0,0},0,1.19},
{0,{1,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},1.19,0},
{0,{1,1,-2,1,0,0,0,0,0,0,0,0,0,0},1.19,0},
{0,{3,0,2,0,0,0,0,0,0,0,0,0,0,0},1.19,0},
{0,{0,0,0,0,0,0,0,0,0,3,0,0,0,1},0.24,0.91},
{0,{0,0,0,0,0,0,0,3,0,0,-1,0,0,2},1.15,0},
{0,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-2},-0.95,0.2},
{0,{1,0,0,-1,1,0,-3,4,0,0,0,0,0,0},0,1.15},
{0,{1,0,2,4,1,0,0,0,0,0,0,0,0,0},-1.15,0},
{0,{1,1,2,-2,0,0,0,0,0,0,0,0,0,0},-1.15,0},
{0,{2,-1,-2,0,0,0,0,0,0,0,0,0,0,0},1.15,0},
{0,{2,-1,0,0,-1,0,0,0,0,0,0,0,0,0},1.15,0},
{0,{2,0,-2,2,0,0,0,0,0,0,0,0,0,0},-1.15,0},
{0,{3,-1,0,0,0,0,0,0,0,0,0,0,0,0},1.15,0},
{0,{0,0,0,0,0,0,0,0,3,0,0,0,0,2},-0.72,-0.4},
{0,{0,1,2,-2,-1,0,0,0,0,0,0,0,0,0},-1.12,0},
{0,{0,0,0,0,0,0,1,1,0,0,0,0,0,1},0.2,-0.91},
{0,{0,0,0,0,0,0,7,-7,0,0,0,0,0,0},1.11,0},
{0,{0,0,0,0,1,0,1,-1,0,0,0,0,0,0},-1.11,0},
{0,{1,0,0,1,-1,0,0,0,0,0,0,0,0,0},-1.11,0},
{0,{1,1,-2,-2,0,0,0,0,0,0,0,0,0,0},-1.11,0},
{0,{1,2,0,-2,-1,0,0,0,0,0,0,0,0,0},-1.11,0},
{0,{2,0,2,-4,0,0,0,0,0,0,0,0,0,0},-1.11,0},
{0,{0,0,0,0,1,0,0,0,0,0,1,0,0,0},0.16,0.95},
{0,{0,0,0,0,0,0,0,1,-4,0,0,0,0,-2},0.76,-0.32},
{0,{0,0,0,0,1,0,-3,5,0,0,0,0,0,0},-0.84,-0.24},
{0,{0,0,0,0,0,0,0,3,-3,0,0,0,0,0},1.07,0},
{0,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-2},0,-1.07},
{0,{0,0,2,-3,1,0,0,0,0,0,0,0,0,0},1.07,0},
{0,{0,0,2,-2,1,0,-4,4,0,0,0,0,0,0},1.07,0},
{0,{0,1,-2,-2,0,0,0,0,0,0,0,0,0,0},-1.07,0},
{0,{2,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},1.07,0},
{0,{2,0,2,4,2,0,0,0,0,0,0,0,0,0},-1.07,0},
{0,{0,0,0,0,0,0,0,1,0,0,-2,0,0,0},-0.24,0.8},
{0,{0,0,1,-1,1,0,-1,0,0,0,0,0,0,0},0.2,0.84},
{0,{0,0,0,0,3,0,0,0,0,0,0,0,0,0},-1.03,0},
{0,{0,0,3,0,3,0,0,0,0,0,0,0,0,0},0,-1.03},
{0,{2,1,2,2,2,0,0,0,0,0,0,0,0,0},1.03,0},
{0,{3,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-1.03,0},
{0,{3,0,2,-4,2,0,0,0,0,0,0,0,0,0},-1.03,0},
{0,{0,0,0,0,0,0,0,2,0,-2,0,0,0,1},-0.16,0.84},
{0,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-2},-0.64,0.36},
{0,{0,0,0,0,0,0,2,-1,0,0,0,0,0,0},0.24,0.76},
{0,{0,0,1,-1,0,0,0,-1,0,-2,5,0,0,0},0.36,-0.64},
{0,{0,0,0,0,0,0,0,1,-1,0,0,0,0,0},-0.99,0},
{0,{0,0,0,0,0,0,0,7,-8,3,0,0,0,2},-0.99,0},
{0,{1,-2,0,2,0,0,0,0,0,0,0,0,0,0},0.99,0},
{0,{2,0,0,1,0,0,0,0,0,0,0,0,0,0},-0.99,0},
{0,{0,0,0,0,0,0,0,5,-8,3,0,0,0,0},0.84,0.12},
{0,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-1},0.2,0.76},
{0,{1,0,0,-1,0,0,0,-3,4,0,0,0,0,0},0.64,0.32},
{0,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-2},0,-0.95},
{0,{0,0,1,-1,0,0,0,-1,0,-1,1,0,0,0},0,0.95},
{0,{1,-1,-2,2,-2,0,0,0,0,0,0,0,0,0},-0.95,0},
{0,{1,-1,2,4,2,0,0,0,0,0,0,0,0,0},-0.95,0},
{0,{1,0,4,0,2,0,0,0,0,0,0,0,0,0},0.95,0},
{0,{3,0,-2,0,0,0,0,0,0,0,0,0,0,0},-0.95,0},
{0,{3,0,2,2,1,0,0,0,0,0,0,0,0,0},-0.95,0},
{0,{0,0,0,0,0,0,3,-9,4,0,0,0,0,-2},-0.56,0.36},
{0,{0,0,1,-1,1,0,3,-6,0,0,0,0,0,0},-0.36,-0.56},
{0,{1,-2,2,-2,1,0,0,0,0,0,0,0,0,0},0.4,0.52},
{0,{1,0,0,-1,-1,0,-3,4,0,0,0,0,0,0},0,0.92},
{0,{0,0,1,-1,1,0,8,-14,0,0,0,0,0,0},0.44,-0.48},
{0,{1,0,0,2,2,0,0,0,0,0,0,0,0,0},0.91,0},
{0,{1,1,2,2,1,0,0,0,0,0,0,0,0,0},0.91,0},
{0,{2,0,0,-6,0,0,0,0,0,0,0,0,0,0},-0.91,0},
{0,{3,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},0.91,0},
{0,{3,1,0,0,0,0,0,0,0,0,0,0,0,0},-0.91,0},
{0,{5,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.91,0},
{0,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-2},0.56,0.32},
{0,{0,0,0,0,0,0,0,4,-7,0,0,0,0,0},0,0.88},
{0,{0,0,0,0,0,0,0,4,-5,0,0,0,0,0},0.64,-0.24},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,2},0.52,0.36},
{0,{0,0,0,0,0,0,3,-5,4,0,0,0,0,2},-0.52,0.36},
{0,{0,0,0,0,1,0,0,8,-15,0,0,0,0,0},0.6,-0.28},
{0,{0,0,1,-1,1,0,0,-3,4,0,0,0,0,0},0.36,-0.52},
{0,{0,2,-2,-2,-1,0,0,0,0,0,0,0,0,0},0.88,0},
{0,{1,-1,0,-4,0,0,0,0,0,0,0,0,0,0},0.88,0},
{0,{1,-1,2,-1,2,0,0,0,0,0,0,0,0,0},0.88,0},
{0,{1,-1,2,0,0,0,0,0,0,0,0,0,0,0},0.88,0},
{0,{1,2,0,-2,1,0,0,0,0,0,0,0,0,0},-0.88,0},
{0,{2,1,0,0,-1,0,0,0,0,0,0,0,0,0},-0.88,0},
{0,{0,0,0,0,0,0,1,2,0,0,0,0,0,2},0.16,0.68},
{0,{0,0,0,0,0,0,5,-7,0,0,0,0,0,0},0.64,-0.2},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,-1},-0.16,0.68},
{0,{0,0,1,-1,0,0,-8,12,0,0,0,0,0,0},0.56,0.28},
{0,{2,0,0,-2,1,0,-6,8,0,0,0,0,0,0},-0.68,-0.16},
{0,{0,0,0,0,0,0,0,3,0,-3,0,0,0,0},0.72,-0.12},
{0,{0,1,0,-2,-2,0,0,0,0,0,0,0,0,0},0.84,0},
{0,{1,2,2,0,2,0,0,0,0,0,0,0,0,0},0.84,0},
{0,{2,0,-2,0,2,0,0,0,0,0,0,0,0,0},-0.83,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,0,2,1},-0.36,-0.44},
{0,{0,0,0,0,0,0,0,2,0,0,-1,0,0,2},0,-0.8},
{0,{0,0,0,0,0,0,0,3,0,-3,0,0,0,2},0.36,-0.44},
{0,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-2},-0.32,0.48},
{0,{0,0,0,0,0,0,0,5,-9,0,0,0,0,0},0.28,0.52},
{0,{0,0,0,0,0,0,3,0,0,0,0,0,0,2},0.68,-0.12},
{0,{0,1,2,0,0,0,0,0,0,0,0,0,0,0},-0.8,0},
{0,{2,1,0,0,1,0,0,0,0,0,0,0,0,0},-0.8,0},
{0,{2,2,0,-2,0,0,0,0,0,0,0,0,0,0},0.8,0},
{0,{4,0,0,-2,0,0,0,0,0,0,0,0,0,0},-0.8,0},
{0,{1,1,0,-2,-2,0,0,0,0,0,0,0,0,0},0.79,0},
{0,{0,0,2,-2,3,0,0,0,0,0,0,0,0,0},0.74,-0.04},
{0,{0,0,0,0,0,0,0,1,0,1,0,0,0,0},0.32,0.44},
{0,{0,0,0,0,0,0,0,2,0,0,1,0,0,2},0,-0.76},
{0,{0,0,0,0,0,0,0,3,-1,0,0,0,0,2},0.76,0},
{0,{0,0,0,0,0,0,0,5,-5,0,0,0,0,2},0.28,-0.48},
{0,{0,0,0,0,0,0,2,0,0,0,0,0,0,1},0.16,-0.6},
{0,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-2},0.64,-0.12},
{0,{0,0,0,0,0,0,8,-8,0,0,0,0,0,0},0.76,0},
{0,{0,0,0,0,1,0,-2,3,0,0,0,0,0,0},0,0.76},
{0,{0,0,0,0,1,0,-1,1,0,0,0,0,0,0},-0.76,0},
{0,{0,0,0,0,1,0,0,0,0,-1,0,0,0,0},0.16,0.6},
{0,{0,0,1,-1,0,0,0,-1,0,2,0,0,0,0},0.12,0.64},
{0,{0,0,1,-1,1,0,0,-9,15,0,0,0,0,0},0,0.76},
{0,{1,0,-4,2,-1,0,0,0,0,0,0,0,0,0},0.76,0},
{0,{1,0,0,-2,0,0,-3,3,0,0,0,0,0,0},0.76,0},
{0,{1,0,0,1,1,0,0,0,0,0,0,0,0,0},-0.76,0},
{0,{1,1,2,0,0,0,0,0,0,0,0,0,0,0},-0.76,0},
{0,{2,-1,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.76,0},
{0,{2,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0.76,0},
{0,{3,0,0,-4,-1,0,0,0,0,0,0,0,0,0},-0.76,0},
{0,{0,0,0,0,0,0,0,2,0,-2,5,0,0,2},0.48,-0.24},
{0,{0,0,1,-1,1,0,-2,2,0,0,0,0,0,0},0.72,0},
{0,{0,0,2,1,0,0,0,0,0,0,0,0,0,0},-0.72,0},
{0,{0,1,2,-4,1,0,0,0,0,0,0,0,0,0},-0.72,0},
{0,{1,-1,-2,0,0,0,0,0,0,0,0,0,0,0},0.72,0},
{0,{3,0,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.72,0},
{0,{4,0,2,-2,1,0,0,0,0,0,0,0,0,0},0.72,0},
{0,{1,-1,0,0,2,0,0,0,0,0,0,0,0,0},-0.71,0},
{0,{0,0,0,0,0,0,0,2,0,-4,0,0,0,-2},-0.68,0},
{0,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-2},-0.68,0},
{0,{0,0,0,0,0,0,5,-3,0,0,0,0,0,2},0.56,-0.12},
{0,{0,1,-4,2,-2,0,0,0,0,0,0,0,0,0},0.68,0},
{0,{0,1,2,4,2,0,0,0,0,0,0,0,0,0},0.68,0},
{0,{0,2,0,-2,1,0,0,0,0,0,0,0,0,0},-0.68,0},
{0,{0,2,2,-2,0,0,0,0,0,0,0,0,0,0},-0.68,0},
{0,{1,0,-2,-2,1,0,0,0,0,0,0,0,0,0},-0.68,0},
{0,{1,0,-2,4,-1,0,0,0,0,0,0,0,0,0},0.68,0},
{0,{1,1,-2,0,0,0,0,0,0,0,0,0,0,0},-0.68,0},
{0,{0,0,0,0,0,0,0,2,0,2,-5,0,0,2},-0.44,-0.24},
{0,{0,0,0,0,0,0,0,3,0,2,-5,0,0,2},0.2,0.48},
{0,{0,0,0,0,0,0,0,3,0,-2,0,0,0,0},-0.16,-0.48},
{0,{0,0,0,0,0,0,0,3,0,1,0,0,0,2},-0.2,-0.44},
{0,{0,0,0,0,0,0,0,4,-8,0,0,0,0,-2},0.24,-0.4},
{0,{0,0,0,0,0,0,0,6,-15,0,0,0,0,-2},-0.44,0.2},
{0,{0,0,0,0,0,0,0,11,0,0,0,0,0,2},-0.44,0.2},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-2},-0.2,-0.44},
{0,{0,0,0,0,0,0,2,-2,0,0,0,0,0,1},-0.12,-0.52},
{0,{0,0,0,0,0,0,6,-6,0,0,0,0,0,-1},-0.12,0.52},
{0,{0,0,0,0,1,0,3,-7,4,0,0,0,0,0},0.4,-0.24},
{0,{0,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0.64,0},
{0,{0,1,0,-4,-1,0,0,0,0,0,0,0,0,0},0.64,0},
{0,{1,0,-2,-4,0,0,0,0,0,0,0,0,0,0},-0.64,0},
{0,{1,0,-2,-3,-1,0,0,0,0,0,0,0,0,0},-0.64,0},
{0,{1,0,0,-6,0,0,0,0,0,0,0,0,0,0},-0.64,0},
{0,{2,-1,2,2,1,0,0,0,0,0,0,0,0,0},-0.64,0},
{0,{2,0,0,-2,1,0,-3,3,0,0,0,0,0,0},0.64,0},
{0,{3,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.64,0},
{0,{2,0,-2,2,-2,0,0,0,0,0,0,0,0,0},-0.63,0},
{0,{0,0,0,0,0,0,0,0,0,0,3,0,0,2},0,0.6},
{0,{0,0,0,0,0,0,0,2,0,-4,0,0,0,0},0.44,0.16},
{0,{0,0,0,0,0,0,0,2,0,0,-2,0,0,0},0.6,0},
{0,{0,0,0,0,0,0,0,5,0,-2,0,0,0,2},0.12,0.48},
{0,{0,0,0,0,0,0,0,6,-11,0,0,0,0,0},0.36,0.24},
{0,{0,0,0,0,0,0,0,6,-6,0,0,0,0,2},0.24,-0.36},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,1},0.12,0.48},
{0,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-1},0.48,-0.12},
{0,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-1},0.12,0.48},
{0,{0,0,0,3,0,0,0,0,0,0,0,0,0,0},-0.6,0},
{0,{0,0,1,-1,2,0,0,-2,2,0,0,0,0,0},0,0.6},
{0,{0,0,2,-2,2,0,-8,11,0,0,0,0,0,0},0,0.6},
{0,{0,1,-2,1,-1,0,0,0,0,0,0,0,0,0},-0.6,0},
{0,{2,-1,0,-4,0,0,0,0,0,0,0,0,0,0},0.6,0},
{0,{2,0,-2,-3,-2,0,0,0,0,0,0,0,0,0},-0.6,0},
{0,{2,0,0,-2,0,0,0,-2,0,3,-1,0,0,0},-0.6,0},
{0,{2,0,0,-2,0,0,0,-2,0,4,-3,0,0,0},0.24,-0.36},
{0,{4,0,2,2,2,0,0,0,0,0,0,0,0,0},-0.6,0},
{0,{0,0,0,0,1,0,0,1,0,-1,0,0,0,0},0.59,0},
{0,{0,0,0,0,0,0,0,1,-5,0,0,0,0,-2},0.2,-0.36},
{0,{0,0,0,0,0,0,0,1,0,0,1,0,0,2},-0.56,0},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,0},0.56,0},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,2},0.44,-0.12},
{0,{0,0,0,0,0,1,0,-4,0,0,0,0,0,-2},0.16,0.4},
{0,{0,0,0,0,1,0,-3,7,-4,0,0,0,0,0},-0.36,-0.2},
{0,{0,0,1,-1,1,0,0,-1,0,-1,1,0,0,0},0,0.56},
{0,{0,0,4,-4,1,0,0,0,0,0,0,0,0,0},-0.56,0},
{0,{1,2,-2,-2,-1,0,0,0,0,0,0,0,0,0},0.56,0},
{0,{2,0,0,-2,-1,0,-6,8,0,0,0,0,0,0},-0.44,-0.12},
{0,{3,0,0,-6,0,0,0,0,0,0,0,0,0,0},-0.56,0},
{0,{3,0,0,-4,1,0,0,0,0,0,0,0,0,0},-0.56,0},
{0,{3,1,0,-4,0,0,0,0,0,0,0,0,0,0},-0.56,0},
{0,{1,1,0,-2,2,0,0,0,0,0,0,0,0,0},0.55,0},
{0,{0,0,0,0,0,0,0,1,1,0,0,0,0,2},-0.52,0},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,2},0.12,0.4},
{0,{0,0,0,0,0,0,9,-9,0,0,0,0,0,0},0.52,0},
{0,{0,0,0,0,1,0,3,-5,0,2,0,0,0,0},0.52,0},
{0,{0,0,0,1,2,0,0,0,0,0,0,0,0,0},0.52,0},
{0,{0,0,1,-1,0,0,0,-1,0,0,2,0,0,0},0.16,0.36},
{0,{0,0,1,-1,1,0,2,-4,0,-3,0,0,0,0},0,-0.52},
{0,{0,0,2,-2,0,0,-3,3,0,0,0,0,0,0},-0.52,0},
{0,{0,0,2,6,2,0,0,0,0,0,0,0,0,0},-0.52,0},
{0,{0,1,0,-1,0,0,0,0,0,0,0,0,0,0},0.52,0},
{0,{1,0,-4,0,0,0,0,0,0,0,0,0,0,0},0.52,0},
{0,{1,0,-2,-2,-2,0,0,-2,0,2,0,0,0,0},-0.52,0},
{0,{1,0,0,-4,-2,0,0,0,0,0,0,0,0,0},0.52,0},
{0,{1,0,0,-2,0,0,0,-2,0,3,0,0,0,0},-0.52,0},
{0,{1,0,1,0,1,0,0,0,0,0,0,0,0,0},0,-0.52},
{0,{1,1,0,-4,1,0,0,0,0,0,0,0,0,0},-0.52,0},
{0,{1,1,0,0,2,0,0,0,0,0,0,0,0,0},0.52,0},
{0,{2,0,-2,-4,0,0,0,0,0,0,0,0,0,0},-0.52,0},
{0,{1,0,0,2,-2,0,0,0,0,0,0,0,0,0},-0.51,0},
{0,{1,0,2,0,3,0,0,0,0,0,0,0,0,0},-0.51,0},
{0,{0,0,0,0,0,0,0,1,0,3,0,0,0,2},-0.2,-0.28},
{0,{0,0,0,0,0,0,0,5,-7,0,0,0,0,0},0.2,-0.28},
{0,{0,0,0,0,0,0,0,0,0,0,3,0,0,1},0.32,-0.16},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,2},-0.48,0},
{0,{0,0,0,0,0,0,0,0,0,4,0,0,0,2},-0.36,0.12},
{0,{0,0,0,0,0,0,0,7,-13,0,0,0,0,-2},0.16,0.32},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,1},-0.12,-0.36},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,2},0.32,-0.16},
{0,{0,0,0,0,1,0,0,2,-4,0,0,0,0,0},-0.16,0.32},
{0,{0,0,1,-1,1,0,0,-1,0,0,3,0,0,0},-0.32,0.16},
{0,{0,0,1,-1,1,0,0,-1,0,3,0,0,0,0},-0.12,-0.36},
{0,{0,0,2,-2,2,0,-5,6,0,0,0,0,0,0},0,0.48},
{0,{0,0,2,-2,2,0,-3,3,0,0,0,0,0,0},-0.48,0},
{0,{0,0,2,2,-1,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{0,1,-2,-1,-2,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{0,1,0,2,2,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{1,-2,2,-2,2,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{1,-1,0,4,0,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{1,0,0,-1,2,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{1,0,1,-2,1,0,0,0,0,0,0,0,0,0},0,-0.48},
{0,{1,1,0,-4,-1,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{2,0,0,-2,-1,0,0,-2,0,0,5,0,0,0},-0.48,0},
{0,{2,1,0,2,0,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{3,-1,2,-2,2,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{3,-1,2,2,2,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{3,0,0,2,1,0,0,0,0,0,0,0,0,0},-0.48,0},
{0,{4,0,0,-4,0,0,0,0,0,0,0,0,0,0},0.48,0},
{0,{0,0,0,0,0,0,0,1,-3,0,0,0,0,-2},0.44,0},
{0,{0,0,0,0,0,0,0,5,-8,0,0,0,0,0},0,0.44},
{0,{0,0,0,0,0,0,0,6,-11,0,0,0,0,-2},0,0.44},
{0,{0,0,0,0,0,0,0,9,-17,0,0,0,0,0},0.2,-0.24},
{0,{0,0,0,0,0,0,1,-3,0,0,0,0,0,0},0.32,-0.12},
{0,{0,0,0,0,0,0,1,0,0,0,0,0,0,2},-0.2,0.24},
{0,{0,0,0,0,0,0,5,-10,0,0,0,0,0,-2},0.12,0.32},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,1},0.2,-0.24},
{0,{0,0,0,0,1,0,0,-1,0,1,0,0,0,0},0.44,0},
{0,{0,0,1,-1,-1,0,0,0,-2,0,0,0,0,0},-0.32,-0.12},
{0,{0,0,2,-2,1,0,-2,2,0,0,0,0,0,0},0.44,0},
{0,{0,1,-2,0,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{0,{0,1,0,4,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{0,{1,-1,0,-3,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{0,{1,-1,2,-4,1,0,0,0,0,0,0,0,0,0},0.44,0},
{0,{1,2,0,-4,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{0,{2,0,2,2,0,0,0,0,0,0,0,0,0,0},0.44,0},
{0,{3,-1,-2,-1,-2,0,0,0,0,0,0,0,0,0},0.44,0},
{0,{3,0,2,-2,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{0,{0,0,0,0,0,0,0,4,-8,1,5,0,0,-2},-0.12,-0.28},
{0,{0,0,0,0,0,0,0,5,-3,0,0,0,0,2},-0.4,0},
{0,{0,0,0,0,0,0,0,7,-13,0,0,0,0,0},0.4,0},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,1},-0.4,0},
{0,{0,0,0,0,0,0,2,-4,0,0,0,0,0,0},0.2,-0.2},
{0,{0,0,0,0,0,0,3,-5,0,2,0,0,0,0},0.4,0},
{0,{0,0,0,0,0,0,3,-1,0,0,0,0,0,1},0,-0.4},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,1},0,-0.4},
{0,{0,0,0,0,0,0,5,-9,0,0,0,0,0,-2},-0.4,0},
{0,{0,0,0,0,0,0,9,-12,0,0,0,0,0,-2},0,-0.4},
{0,{0,0,0,3,1,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{0,0,1,-1,2,0,0,-1,0,2,0,0,0,0},0,0.4},
{0,{0,0,3,0,2,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{0,0,4,-1,2,0,0,0,0,0,0,0,0,0},-0.4,0},
{0,{1,0,4,-4,2,0,0,0,0,0,0,0,0,0},-0.4,0},
{0,{1,1,-2,2,0,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{1,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{2,0,-4,0,-1,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{2,0,-1,-1,-1,0,0,-1,0,3,0,0,0,0},0.12,0.28},
{0,{2,0,0,-2,-1,0,0,-5,6,0,0,0,0,0},0.24,0.16},
{0,{2,0,0,4,0,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{2,0,2,0,-1,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{2,1,0,-4,-1,0,0,0,0,0,0,0,0,0},-0.4,0},
{0,{2,1,0,-4,1,0,0,0,0,0,0,0,0,0},-0.4,0},
{0,{4,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{5,0,2,-2,2,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{0,0,0,0,0,0,0,2,-5,0,0,0,0,-2},0.24,-0.12},
{0,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-1},0.36,0},
{0,{0,0,0,0,0,0,0,3,-2,0,0,0,0,0},0,0.36},
{0,{0,0,0,0,0,0,0,5,0,-3,0,0,0,2},-0.36,0},
{0,{0,0,0,0,0,0,0,6,-5,0,0,0,0,2},-0.24,0.12},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-2},0.12,-0.24},
{0,{0,0,0,0,0,0,4,-3,0,0,0,0,0,2},0,0.36},
{0,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-1},-0.36,0},
{0,{0,0,0,0,0,0,6,-7,0,0,0,0,0,0},0,0.36},
{0,{0,0,0,0,0,0,7,-7,0,0,0,0,0,-1},0,0.36},
{0,{0,0,0,0,2,0,0,-1,2,0,0,0,0,0},-0.2,-0.16},
{0,{0,0,1,-1,1,0,-2,3,0,0,0,0,0,0},0,0.36},
{0,{0,0,1,-1,1,0,0,1,0,0,0,0,0,0},0,-0.36},
{0,{0,0,2,-2,-2,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{0,0,2,0,-2,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{0,0,2,0,2,0,0,-4,8,-3,0,0,0,0},0,0.36},
{0,{0,0,2,0,2,0,0,4,-8,3,0,0,0,0},0,0.36},
{0,{0,1,0,-2,2,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{0,2,-2,0,-1,0,0,0,0,0,0,0,0,0},0.24,-0.12},
{0,{0,3,0,-2,0,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{1,-2,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{1,-2,0,0,1,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{1,-1,-2,-3,-2,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{1,0,0,-3,1,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{1,0,1,0,0,0,0,0,0,0,0,0,0,0},0.12,0.24},
{0,{1,3,0,-2,0,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{2,-2,2,0,2,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{2,-1,0,-1,0,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{2,0,-1,-1,-1,0,0,3,-7,0,0,0,0,0},0.2,-0.16},
{0,{2,0,0,2,2,0,0,0,0,0,0,0,0,0},0.36,0},
{0,{2,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{0,0,1,-1,2,0,0,-1,0,-2,5,0,0,0},-0.13,0.22},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,2},0,0.32},
{0,{0,0,0,0,0,0,0,1,0,-4,0,0,0,0},-0.16,0.16},
{0,{0,0,0,0,0,0,0,2,-6,0,0,0,0,-2},0.12,-0.2},
{0,{0,0,0,0,0,0,0,2,2,0,0,0,0,2},-0.16,0.16},
{0,{0,0,0,0,0,0,0,4,-8,0,0,0,0,0},0.12,0.2},
{0,{0,0,0,0,0,0,0,4,-4,0,0,0,0,0},0.32,0},
{0,{0,0,0,0,0,0,0,5,-8,0,0,0,0,-2},-0.2,0.12},
{0,{0,0,0,0,0,0,0,5,-2,0,0,0,0,2},0,-0.32},
{0,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-1},0,0.32},
{0,{0,0,0,0,0,0,2,-6,0,0,0,0,0,-2},0.32,0},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,0},0,0.32},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,2},-0.32,0},
{0,{0,0,0,0,0,0,8,-12,0,0,0,0,0,0},0.32,0},
{0,{0,0,0,0,0,1,0,-4,0,0,0,0,0,0},0.2,0.12},
{0,{0,0,0,0,1,0,0,-8,15,0,0,0,0,0},-0.2,-0.12},
{0,{0,0,0,0,1,0,3,-5,0,0,0,0,0,0},-0.32,0},
{0,{0,0,0,1,-2,0,0,0,0,0,0,0,0,0},0.32,0},
{0,{0,0,1,-1,1,0,0,-1,0,-2,4,0,0,0},0.2,0.12},
{0,{0,0,1,-1,1,0,0,-1,0,-1,2,0,0,0},0,-0.32},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,2,0,0},0,-0.32},
{0,{0,0,2,-2,0,0,0,-9,13,0,0,0,0,0},0.12,-0.2},
{0,{0,0,2,-2,1,-1,0,2,0,0,0,0,0,0},0,0.32},
{0,{0,0,2,-2,1,0,0,-8,11,0,0,0,0,0},0,0.32},
{0,{0,0,2,-2,1,0,0,-2,0,0,2,0,0,0},0.32,0},
{0,{0,0,2,0,2,0,-1,1,0,0,0,0,0,0},-0.32,0},
{0,{0,0,2,0,2,0,1,-1,0,0,0,0,0,0},0.32,0},
{0,{0,0,4,-2,0,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{0,2,2,0,1,0,0,0,0,0,0,0,0,0},0.32,0},
{0,{1,0,0,-2,0,0,20,-21,0,0,0,0,0,0},0,-0.32},
{0,{1,1,0,2,-1,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{1,2,2,-2,1,0,0,0,0,0,0,0,0,0},0.32,0},
{0,{2,0,-1,-1,-2,0,0,-1,0,2,0,0,0,0},0,-0.32},
{0,{2,0,0,-2,1,0,0,-6,8,0,0,0,0,0},0.12,0.2},
{0,{2,0,2,-1,1,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{2,2,2,-2,2,0,0,0,0,0,0,0,0,0},0.32,0},
{0,{3,-1,2,0,1,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{3,0,2,-1,2,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{4,0,0,0,-1,0,0,0,0,0,0,0,0,0},0.32,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,2,0,2},-0.28,0},
{0,{0,0,0,0,0,0,0,0,0,4,-5,0,0,2},0.28,0},
{0,{0,0,0,0,0,0,0,1,-6,0,0,0,0,-2},0,-0.28},
{0,{0,0,0,0,0,0,0,1,0,-1,0,0,0,1},0,0.28},
{0,{0,0,0,0,0,0,0,3,0,0,-2,0,0,2},0,-0.28},
{0,{0,0,0,0,0,0,0,4,0,0,-2,0,0,2},-0.28,0},
{0,{0,0,0,0,0,0,0,4,0,0,0,0,0,0},0.12,-0.16},
{0,{0,0,0,0,0,0,0,6,-7,0,0,0,0,2},0,-0.28},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,1},0,0.28},
{0,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-2},-0.12,-0.16},
{0,{0,0,0,0,0,0,3,-7,4,0,0,0,0,0},-0.28,0},
{0,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-1},0.28,0},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-1},-0.28,0},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,1},0,-0.28},
{0,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-1},0,0.28},
{0,{0,0,0,0,0,0,8,-8,0,0,0,0,0,-1},0,0.28},
{0,{0,0,0,0,1,0,0,-9,17,0,0,0,0,0},-0.12,-0.16},
{0,{0,0,0,0,2,0,0,-4,8,-3,0,0,0,0},0,-0.28},
{0,{0,0,0,0,2,0,0,4,-8,3,0,0,0,0},0,-0.28},
{0,{0,0,0,4,2,0,0,0,0,0,0,0,0,0},-0.28,0},
{0,{0,0,1,-1,1,0,0,-1,0,0,-2,0,0,0},0.12,-0.16},
{0,{0,0,1,-1,2,0,0,0,-2,0,0,0,0,0},-0.28,0},
{0,{0,0,2,-2,1,0,0,-2,0,3,0,0,0,0},0.28,0},
{0,{0,0,2,4,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{0,2,0,2,0,0,0,0,0,0,0,0,0,0},-0.28,0},
{0,{1,-2,0,-2,-1,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,-1,2,-2,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,0,-2,-2,-2,0,-3,3,0,0,0,0,0,0},-0.28,0},
{0,{1,0,0,-2,0,0,0,1,0,-1,0,0,0,0},0.28,0},
{0,{1,0,0,-1,1,0,0,-3,4,0,0,0,0,0},0.16,0.12},
{0,{1,0,0,4,-1,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,0,2,-3,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,0,2,3,2,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,1,0,-3,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,1,0,-1,1,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,1,2,-4,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,1,2,-4,2,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{1,1,2,1,1,0,0,0,0,0,0,0,0,0},-0.28,0},
{0,{1,1,4,-2,2,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{2,-2,0,0,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{2,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{2,0,-4,2,-2,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{3,0,-2,-2,0,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{3,1,2,0,1,0,0,0,0,0,0,0,0,0},0.28,0},
{0,{4,0,2,-4,2,0,0,0,0,0,0,0,0,0},-0.28,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,0,2,2},-0.24,0},
{0,{0,0,0,0,0,0,0,0,0,0,5,0,0,2},-0.24,0},
{0,{0,0,0,0,0,0,0,0,2,0,0,0,0,0},0.24,0},
{0,{0,0,0,0,0,0,0,2,-7,0,0,0,0,-2},0,-0.24},
{0,{0,0,0,0,0,0,0,2,0,-2,0,0,0,2},-0.24,0},
{0,{0,0,0,0,0,0,0,4,-8,1,5,0,0,2},0,0.24},
{0,{0,0,0,0,0,0,0,4,-6,0,0,0,0,-2},-0.24,0},
{0,{0,0,0,0,0,0,0,5,-6,0,0,0,0,2},0,-0.24},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,1},0.12,-0.12},
{0,{0,0,0,0,0,0,7,-8,0,0,0,0,0,0},0,0.24},
{0,{0,0,0,0,0,0,8,-16,0,0,0,0,0,-2},0.24,0},
{0,{0,0,0,0,0,0,8,-12,0,0,0,0,0,-2},0.24,0},
{0,{0,0,0,0,1,0,2,-2,0,0,0,0,0,0},0.24,0},
{0,{0,0,1,-1,2,0,0,-1,0,-1,0,0,0,0},0,-0.24},
{0,{0,0,1,-1,2,0,0,-1,0,1,0,0,0,0},0,0.24},
{0,{0,0,2,-2,-1,0,-5,6,0,0,0,0,0,0},0,0.24},
{0,{0,0,2,0,2,0,0,-1,0,1,0,0,0,0},0.24,0},
{0,{0,0,2,0,2,0,0,1,0,-1,0,0,0,0},-0.24,0},
{0,{0,1,0,-4,1,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{0,1,0,3,0,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{0,1,2,3,2,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{0,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{0,2,2,2,2,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{1,-2,0,-2,1,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{1,-2,2,0,1,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{1,-1,0,-4,-1,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{1,-1,2,2,0,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{1,0,-1,1,-1,0,-18,17,0,0,0,0,0,0},0,-0.24},
{0,{1,0,0,-2,0,0,2,-2,0,0,0,0,0,0},0.24,0},
{0,{1,0,0,0,0,0,0,-2,0,2,0,0,0,0},-0.24,0},
{0,{1,0,2,-2,2,0,0,-2,0,2,0,0,0,0},-0.24,0},
{0,{2,-1,2,-1,2,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{2,0,-4,-2,-1,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{2,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{2,0,-1,-1,-1,0,0,-1,0,2,0,0,0,0},0,-0.24},
{0,{2,0,0,-2,-2,0,-3,3,0,0,0,0,0,0},-0.24,0},
{0,{2,0,2,1,1,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{2,1,2,-4,1,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{2,1,2,1,2,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{2,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{2,2,0,-4,0,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{3,0,0,-3,0,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{4,-1,2,0,2,0,0,0,0,0,0,0,0,0},-0.24,0},
{0,{5,0,0,0,0,0,0,0,0,0,0,0,0,0},0.24,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,1,-2,-2},0,0.2},
{0,{0,0,0,0,0,0,0,0,0,0,0,2,0,1},0,-0.2},
{0,{0,0,0,0,0,0,0,1,0,-5,0,0,0,-2},-0.2,0},
{0,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-1},0,-0.2},
{0,{0,0,0,0,0,0,0,1,0,-2,0,0,0,-2},0.2,0},
{0,{0,0,0,0,0,0,0,1,0,-2,5,0,0,2},0,0.2},
{0,{0,0,0,0,0,0,0,2,0,-5,0,0,0,-2},-0.2,0},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,0},-0.2,0},
{0,{0,0,0,0,0,0,0,3,0,-4,0,0,0,0},0.2,0},
{0,{0,0,0,0,0,0,0,4,0,-4,0,0,0,2},-0.2,0},
{0,{0,0,0,0,0,0,0,5,-10,0,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,0,6,-9,0,0,0,0,0},0,-0.2},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-1},-0.2,0},
{0,{0,0,0,0,0,0,5,-3,0,0,0,0,0,1},0,-0.2},
{0,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,9,-9,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,1,0,0,0,0,0,-1,0,0,0},0,0.2},
{0,{0,0,0,0,1,0,0,2,-2,0,0,0,0,0},0.2,0},
{0,{0,0,0,0,1,0,5,-8,0,0,0,0,0,0},0,0.2},
{0,{0,0,0,6,0,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,0,1,-1,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{0,0,1,-1,1,0,-2,1,0,0,0,0,0,0},0,0.2},
{0,{0,0,1,-1,1,0,1,-2,0,0,0,0,0,0},0,0.2},
{0,{0,0,1,-1,2,0,-5,7,0,0,0,0,0,0},-0.2,0},
{0,{0,0,1,-1,2,0,0,-1,0,0,1,0,0,0},-0.2,0},
{0,{0,0,2,-4,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{0,0,2,-2,0,0,0,-2,0,2,0,0,0,0},-0.2,0},
{0,{0,0,2,-2,1,0,0,-1,0,1,0,0,0,0},0.2,0},
{0,{0,0,2,-2,2,0,0,-2,0,2,0,0,0,0},-0.2,0},
{0,{0,0,2,3,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,0,4,2,2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,1,0,4,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,1,4,-2,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,2,0,-4,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{0,3,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,-2,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,-2,0,0,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,-1,-4,2,-2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,-1,0,-2,-2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,-1,0,0,-2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,-1,2,1,2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,0,-2,-2,-2,0,0,-2,0,3,0,0,0,0},0.2,0},
{0,{1,0,-2,0,-2,0,-10,3,0,0,0,0,0,0},0.2,0},
{0,{1,0,-2,0,2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,0,-2,1,1,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,0,-1,-1,-1,0,20,-20,0,0,0,0,0,0},-0.2,0},
{0,{1,0,-1,0,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,-1,1,-1,0,0,1,0,0,0,0,0,0},0,-0.2},
{0,{1,0,0,-6,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,0,0,-2,0,0,17,-16,0,-2,0,0,0,0},0,0.2},
{0,{1,0,0,-1,-1,0,0,-2,2,0,0,0,0,0},-0.2,0},
{0,{1,0,0,-1,0,0,0,-2,2,0,0,0,0,0},0.2,0},
{0,{1,0,0,0,0,0,-1,1,0,0,0,0,0,0},0.2,0},
{0,{1,0,0,0,0,0,0,-4,8,-3,0,0,0,0},0,-0.2},
{0,{1,0,0,0,0,0,0,4,-8,3,0,0,0,0},0,-0.2},
{0,{1,0,1,-2,0,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,1,-1,1,0,0,-1,0,0,0,0,0,0},0,0.2},
{0,{1,0,3,0,3,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,1,-2,-3,-2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,1,-2,2,-2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,-2,0,-2,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,-1,-2,2,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,-1,2,-2,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,0,-1,-1,-1,0,0,-1,0,0,0,0,0,0},0,-0.2},
{0,{2,0,0,-3,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,0,0,-2,-1,0,-3,3,0,0,0,0,0,0},0.2,0},
{0,{2,0,0,-2,-1,0,0,-2,0,4,-5,0,0,0},0.2,0},
{0,{2,0,0,-2,0,0,-2,2,0,0,0,0,0,0},0.2,0},
{0,{2,0,0,-2,0,0,0,-4,8,-3,0,0,0,0},-0.2,0},
{0,{2,0,0,-1,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,0,4,-2,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,1,-2,-6,-2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,1,-2,0,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,1,0,-2,-2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{3,0,0,-2,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{3,0,0,-2,1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{4,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{4,1,2,0,2,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{0,0,0,0,0,0,0,0,0,2,-2,0,0,0},-0.16,0},
{0,{0,0,0,0,0,0,0,0,0,3,-5,0,0,0},0,-0.16},
{0,{0,0,0,0,0,0,0,1,0,-1,0,0,0,-1},0,-0.16},
{0,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1},0.16,0},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,1},0.16,0},
{0,{0,0,0,0,0,0,0,2,0,0,-2,0,0,1},0,0.16},
{0,{0,0,0,0,0,0,0,3,-8,3,0,0,0,-2},0.16,0},
{0,{0,0,0,0,0,0,0,3,0,0,0,0,0,2},0,0.16},
{0,{0,0,0,0,0,0,0,6,-10,0,0,0,0,-2},0,0.16},
{0,{0,0,0,0,0,0,0,7,-9,0,0,0,0,2},0,-0.16},
{0,{0,0,0,0,0,0,0,7,-8,0,0,0,0,2},0,-0.16},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-1},0.16,0},
{0,{0,0,0,0,0,0,1,1,0,0,0,0,0,0},-0.16,0},
{0,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-1},0.16,0},
{0,{0,0,0,0,0,0,3,-8,0,0,0,0,0,-2},0,0.16},
{0,{0,0,0,0,0,0,3,-6,0,0,0,0,0,0},0,-0.16},
{0,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-2},0,-0.16},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,1},0,-0.16},
{0,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-1},-0.16,0},
{0,{0,0,0,0,0,0,8,-9,0,0,0,0,0,0},0,0.16},
{0,{0,0,0,0,1,0,-2,2,0,0,0,0,0,0},0.16,0},
{0,{0,0,0,0,1,0,0,1,0,-2,0,0,0,0},0,-0.16},
{0,{0,0,0,0,1,0,3,-4,0,0,0,0,0,0},0,-0.16},
{0,{0,0,0,2,0,0,0,-1,0,1,0,0,0,0},-0.16,0},
{0,{0,0,1,-1,-1,0,0,-1,0,-1,0,0,0,0},0,-0.16},
{0,{0,0,1,-1,0,0,-4,5,0,0,0,0,0,0},0,-0.16},
{0,{0,0,1,-1,0,0,-3,4,0,0,0,0,0,0},0,-0.16},
{0,{0,0,1,-1,0,0,0,-2,2,0,0,0,0,0},0,0.16},
{0,{0,0,1,-1,0,0,0,-1,0,0,1,0,0,0},0.16,0},
{0,{0,0,1,-1,0,0,0,-1,0,1,0,0,0,0},0,0.16},
{0,{0,0,1,-1,0,0,3,-6,0,0,0,0,0,0},0,0.16},
{0,{0,0,1,-1,1,0,-5,6,0,0,0,0,0,0},0,0.16},
{0,{0,0,1,-1,1,0,0,-4,6,0,0,0,0,0},0.16,0},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,-1,0,0},0,0.16},
{0,{0,0,1,-1,1,0,1,-3,0,0,0,0,0,0},-0.16,0},
{0,{0,0,1,1,0,0,0,1,0,0,0,0,0,0},0,-0.16},
{0,{0,0,2,-3,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{0,0,2,-2,0,0,-4,4,0,0,0,0,0,0},-0.16,0},
{0,{0,0,2,-2,1,0,-5,5,0,0,0,0,0,0},0.16,0},
{0,{0,0,2,-2,1,0,0,-4,8,-3,0,0,0,0},0,0.16},
{0,{0,0,2,-2,1,0,0,-3,0,3,0,0,0,0},0.16,0},
{0,{0,0,2,-2,1,0,0,1,0,-1,0,0,0,0},-0.16,0},
{0,{0,0,2,-2,1,0,0,4,-8,3,0,0,0,0},0,0.16},
{0,{0,1,-2,4,-1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{0,1,2,-4,2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{0,1,2,2,0,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{0,2,0,0,-2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{0,2,0,0,2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,-2,-2,2,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,-2,2,2,1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{1,-1,-2,-4,-1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{1,-1,-2,-2,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,-1,0,1,0,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{1,0,-4,-2,-1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{1,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,0,0,-3,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,0,0,-2,0,0,-2,2,0,0,0,0,0,0},-0.16,0},
{0,{1,0,0,-2,0,0,0,-4,8,-3,0,0,0,0},0,-0.16},
{0,{1,0,0,-2,0,0,0,4,-8,3,0,0,0,0},0,-0.16},
{0,{1,0,0,-2,0,0,1,-1,0,0,0,0,0,0},-0.16,0},
{0,{1,0,0,-1,1,0,0,-1,0,1,0,0,0,0},0.16,0},
{0,{1,0,0,0,0,0,-3,3,0,0,0,0,0,0},-0.16,0},
{0,{1,0,0,0,0,0,0,-1,0,1,0,0,0,0},-0.16,0},
{0,{1,0,0,0,0,0,1,-1,0,0,0,0,0,0},-0.16,0},
{0,{1,0,2,-1,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,1,-2,-6,-2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,1,0,1,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,1,0,1,1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{1,1,2,4,2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,-2,0,-2,-2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,-2,2,-2,2,0,0,0,0,0,0,0,0,0},-0.04,0.12},
{0,{2,-2,2,2,2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,-1,0,2,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,-1,0,2,1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,-1,2,0,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,0,-4,2,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,0,-2,-2,1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,0,0,-3,1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{2,0,0,-2,0,0,0,-4,4,0,0,0,0,0},0.16,0},
{0,{2,0,0,-2,0,0,0,-2,0,2,2,0,0,0},-0.16,0},
{0,{2,0,0,4,1,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,0,2,-3,2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,0,2,0,1,0,0,1,0,0,0,0,0,0},0.16,0},
{0,{2,0,4,-4,2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,1,0,-6,0,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{2,1,0,1,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,-1,0,2,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,0,-2,2,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,0,0,-1,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,0,0,0,2,0,0,0,0,0,0,0,0,0},-0.16,0},
{0,{3,0,0,2,-1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,0,2,1,2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,0,4,-2,2,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{3,1,2,-2,1,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{4,0,0,2,0,0,0,0,0,0,0,0,0,0},0.16,0},
{0,{0,0,1,-1,2,0,-8,12,0,0,0,0,0,0},-0.15,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,0,0,2},0.12,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,1,0,0},0,0.12},
{0,{0,0,0,0,0,0,0,0,0,1,-2,0,0,0},0,0.12},
{0,{0,0,0,0,0,0,0,0,0,2,-6,3,0,-2},0.12,0},
{0,{0,0,0,0,0,0,0,0,1,0,0,0,0,0},0.08,0.04},
{0,{0,0,0,0,0,0,0,1,-3,0,0,0,0,0},0,0.12},
{0,{0,0,0,0,0,0,0,1,0,-3,5,0,0,0},0.12,0},
{0,{0,0,0,0,0,0,0,1,0,0,-3,0,0,0},-0.12,0},
{0,{0,0,0,0,0,0,0,1,0,0,2,0,0,2},0,-0.12},
{0,{0,0,0,0,0,0,0,1,0,1,-5,0,0,0},-0.12,0},
{0,{0,0,0,0,0,0,0,1,0,1,0,0,0,1},0,0.12},
{0,{0,0,0,0,0,0,0,2,-8,1,5,0,0,-2},0,-0.12},
{0,{0,0,0,0,0,0,0,2,0,0,-3,0,0,0},0,0.12},
{0,{0,0,0,0,0,0,0,2,0,2,0,0,0,2},0.12,0},
{0,{0,0,0,0,0,0,0,2,1,0,0,0,0,2},0.12,0},
{0,{0,0,0,0,0,0,0,3,-9,0,0,0,0,-2},0,-0.12},
{0,{0,0,0,0,0,0,0,3,-7,0,0,0,0,-2},0,-0.12},
{0,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-1},0,-0.12},
{0,{0,0,0,0,0,0,0,3,0,-5,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,0,4,-8,3,0,0,0,-1},0.12,0},
{0,{0,0,0,0,0,0,0,4,-8,3,0,0,0,1},0.12,0},
{0,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-1},-0.12,0},
{0,{0,0,0,0,0,0,0,5,-16,4,5,0,0,-2},0.12,0},
{0,{0,0,0,0,0,0,0,5,-13,0,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-1},-0.12,0},
{0,{0,0,0,0,0,0,0,5,-8,3,0,0,0,2},-0.12,0},
{0,{0,0,0,0,0,0,0,5,-7,0,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,0,5,-6,0,0,0,0,0},0.12,0},
{0,{0,0,0,0,0,0,0,5,0,-4,0,0,0,2},-0.12,0},
{0,{0,0,0,0,0,0,0,6,-10,0,0,0,0,0},0,0.12},
{0,{0,0,0,0,0,0,0,6,-9,0,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,0,6,-8,1,5,0,0,2},0,-0.12},
{0,{0,0,0,0,0,0,0,6,-4,0,0,0,0,2},-0.12,0},
{0,{0,0,0,0,0,0,0,7,-12,0,0,0,0,-2},0,0.12},
{0,{0,0,0,0,0,0,0,7,-7,0,0,0,0,2},0,0.12},
{0,{0,0,0,0,0,0,0,9,-17,0,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-1},0.12,0},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-2},0.12,0},
{0,{0,0,0,0,0,0,2,0,0,0,0,0,0,0},-0.12,0},
{0,{0,0,0,0,0,0,2,1,0,0,0,0,0,1},0,0.12},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,1},0.12,0},
{0,{0,0,0,0,0,0,3,-3,0,2,0,0,0,2},-0.12,0},
{0,{0,0,0,0,0,0,3,-1,0,0,0,0,0,0},-0.12,0},
{0,{0,0,0,0,0,0,4,-8,0,0,0,0,0,-2},0.12,0},
{0,{0,0,0,0,0,0,4,-5,0,0,0,0,0,0},0,-0.12},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,0},0,0.12},
{0,{0,0,0,0,0,0,5,-6,-4,0,0,0,0,-2},-0.12,0},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-2},0,-0.12},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-1},-0.12,0},
{0,{0,0,0,0,0,0,5,-4,0,0,0,0,0,2},0,0.12},
{0,{0,0,0,0,0,0,6,-9,0,0,0,0,0,0},0,-0.12},
{0,{0,0,0,0,0,0,6,-8,0,0,0,0,0,0},-0.12,0},
{0,{0,0,0,0,0,0,6,-7,0,0,0,0,0,-1},-0.12,0},
{0,{0,0,0,0,0,0,6,-6,0,0,0,0,0,1},0,-0.12},
{0,{0,0,0,0,0,0,6,-4,0,0,0,0,0,1},0,-0.12},
{0,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-1},0,-0.12},
{0,{0,0,0,0,0,0,8,-14,0,0,0,0,0,-2},0.12,0},
{0,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-1},-0.12,0},
{0,{0,0,0,0,0,0,9,-13,0,0,0,0,0,-2},0.12,0},
{0,{0,0,0,0,1,0,-3,4,0,0,0,0,0,0},0,0.12},
{0,{0,0,0,0,1,0,-1,2,0,0,0,0,0,0},0,0.12},
{0,{0,0,0,0,1,0,0,-2,2,0,0,0,0,0},0.12,0},
{0,{0,0,0,0,1,0,0,-1,0,2,0,0,0,0},0,0.12},
{0,{0,0,0,0,1,0,0,2,0,-2,0,0,0,0},-0.12,0},
{0,{0,0,0,0,1,0,0,7,-13,0,0,0,0,0},-0.12,0},
{0,{0,0,0,0,2,0,-3,5,0,0,0,0,0,0},0.12,0},
{0,{0,0,0,0,2,0,0,0,0,1,0,0,0,0},0,-0.12},
{0,{0,0,0,2,0,0,-2,2,0,0,0,0,0,0},-0.12,0},
{0,{0,0,0,2,0,0,0,2,0,-2,0,0,0,0},-0.12,0},
{0,{0,0,0,3,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{0,0,1,-1,-1,0,-5,7,0,0,0,0,0,0},0.12,0},
{0,{0,0,1,-1,0,0,-2,2,0,0,0,0,0,0},-0.12,0},
{0,{0,0,1,-1,0,0,-1,0,0,0,0,0,0,0},0,-0.12},
{0,{0,0,1,-1,0,0,0,-1,0,0,-2,0,0,0},0,0.12},
{0,{0,0,1,-1,0,0,0,1,0,0,0,0,0,0},0,0.12},
{0,{0,0,1,-1,1,0,-4,6,0,0,0,0,0,0},0.12,0},
{0,{0,0,1,-1,1,0,-1,2,0,0,0,0,0,0},0,0.12},
{0,{0,0,1,-1,1,0,0,-1,0,1,-3,0,0,0},0,0.12},
{0,{0,0,1,-1,1,0,0,1,-4,0,0,0,0,0},0.12,0},
{0,{0,0,1,-1,2,0,-3,4,0,0,0,0,0,0},0,-0.12},
{0,{0,0,1,-1,2,0,0,-1,0,0,-1,0,0,0},-0.12,0},
{0,{0,0,1,1,2,0,0,1,0,0,0,0,0,0},0,-0.12},
{0,{0,0,2,-2,0,-1,0,2,0,0,0,0,0,0},0,-0.12},
{0,{0,0,2,-2,1,0,-8,11,0,0,0,0,0,0},0,0.12},
{0,{0,0,2,-2,1,0,0,-10,15,0,0,0,0,0},-0.12,0},
{0,{0,0,2,-2,1,0,0,-7,9,0,0,0,0,0},0,0.12},
{0,{0,0,2,-2,1,0,0,-4,4,0,0,0,0,0},0.12,0},
{0,{0,0,2,-2,1,0,0,-2,0,0,0,0,0,0},-0.12,0},
{0,{0,0,2,-2,1,0,0,-2,0,1,0,0,0,0},-0.12,0},
{0,{0,0,2,-2,1,0,1,-1,0,0,0,0,0,0},0.12,0},
{0,{0,0,2,0,2,0,-2,2,0,0,0,0,0,0},0.12,0},
{0,{0,0,2,0,2,0,-2,3,0,0,0,0,0,0},0,0.12},
{0,{0,0,2,0,2,0,2,-3,0,0,0,0,0,0},0,0.12},
{0,{0,0,2,0,2,0,2,-2,0,0,0,0,0,0},-0.12,0},
{0,{0,0,2,2,2,0,0,2,0,-2,0,0,0,0},0.12,0},
{0,{0,1,-4,2,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{0,1,4,-4,2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,-2,0,-1,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,-1,-2,1,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,-1,0,4,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,-1,2,-3,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,-1,2,4,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,0,-2,-2,-2,0,0,1,0,-1,0,0,0,0},-0.12,0},
{0,{1,0,-2,4,-2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,0,-1,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.12},
{0,{1,0,-1,-1,0,0,0,8,-15,0,0,0,0,0},-0.12,0},
{0,{1,0,-1,0,-1,0,-3,5,0,0,0,0,0,0},0.12,0},
{0,{1,0,-1,1,0,0,0,1,0,0,0,0,0,0},0,0.12},
{0,{1,0,0,-4,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},0.12,0},
{0,{1,0,0,-2,0,0,0,2,0,-2,0,0,0,0},-0.12,0},
{0,{1,0,0,-2,1,0,0,-2,0,2,0,0,0,0},0.12,0},
{0,{1,0,0,-1,-1,0,0,-3,4,0,0,0,0,0},0.12,0},
{0,{1,0,0,0,-1,0,-10,3,0,0,0,0,0,0},0.12,0},
{0,{1,0,0,0,0,0,0,-2,0,3,0,0,0,0},0.12,0},
{0,{1,0,0,0,0,0,0,1,0,-1,0,0,0,0},0.12,0},
{0,{1,0,0,0,1,0,-10,3,0,0,0,0,0,0},0.12,0},
{0,{1,0,0,3,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,0,1,1,1,0,0,1,0,0,0,0,0,0},0,0.12},
{0,{1,0,2,-6,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,0,2,-4,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,0,2,-2,2,0,-3,3,0,0,0,0,0,0},-0.12,0},
{0,{1,0,2,0,2,0,-1,1,0,0,0,0,0,0},-0.12,0},
{0,{1,0,2,0,2,0,0,-4,8,-3,0,0,0,0},0,0.12},
{0,{1,0,2,0,2,0,0,4,-8,3,0,0,0,0},0,0.12},
{0,{1,0,2,0,2,0,1,-1,0,0,0,0,0,0},0.12,0},
{0,{1,0,2,1,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,0,4,0,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,1,-2,-1,-2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,1,-2,1,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,1,0,-6,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,1,0,0,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,2,0,0,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,2,2,-4,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{1,2,2,0,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{1,3,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,-1,-2,-2,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,-1,-2,0,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,-1,0,-2,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,-1,2,4,2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,0,-2,-5,-2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,0,-2,-2,-2,0,0,-2,0,2,0,0,0,0},0.12,0},
{0,{2,0,-2,0,-2,0,0,5,-9,0,0,0,0,0},0,0.12},
{0,{2,0,-1,-1,0,0,0,-1,0,3,0,0,0,0},0,0.12},
{0,{2,0,-1,-1,1,0,0,3,-7,0,0,0,0,0},0.12,0},
{0,{2,0,0,-6,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,0,0,-4,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,0,0,-4,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,0,0,-2,-1,0,0,-6,8,0,0,0,0,0},0,0.12},
{0,{2,0,0,-2,-1,0,0,-2,0,3,-1,0,0,0},-0.12,0},
{0,{2,0,0,-2,0,0,-4,4,0,0,0,0,0,0},0.12,0},
{0,{2,0,0,-2,0,0,0,-2,0,0,2,0,0,0},0.12,0},
{0,{2,0,0,-2,0,0,0,-2,0,0,5,0,0,0},0.12,0},
{0,{2,0,0,-2,0,0,0,-2,0,1,5,0,0,0},0.12,0},
{0,{2,0,0,-2,0,0,0,-2,0,5,-5,0,0,0},0,0.12},
{0,{2,0,0,-2,0,0,2,-5,0,0,0,0,0,0},0,-0.12},
{0,{2,0,0,-2,1,0,0,-5,6,0,0,0,0,0},0.12,0},
{0,{2,0,1,-3,1,0,-6,7,0,0,0,0,0,0},0,0.12},
{0,{2,0,2,-6,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,0,2,-2,-1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,0,2,-2,2,0,0,-2,0,3,0,0,0,0},0.12,0},
{0,{2,0,2,4,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,1,-2,0,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,1,0,-3,0,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,1,0,2,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,1,2,-4,2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,1,2,-2,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,1,2,0,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{2,1,2,2,1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{2,2,0,-2,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{3,-1,0,-3,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,-1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{3,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,0,-2,-1,-1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,0,0,0,-2,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,1,-2,-6,-2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{3,1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{3,1,2,2,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{4,0,-2,-2,0,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{4,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{4,1,2,-2,2,0,0,0,0,0,0,0,0,0},0.12,0},
{0,{5,0,2,0,1,0,0,0,0,0,0,0,0,0},-0.12,0},
{0,{0,0,4,-4,4,0,0,0,0,0,0,0,0,0},0.11,0},
{1,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-3309.73,205833.11},
{1,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},198.97,12814.01},
{1,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},41.44,2187.91},
{1,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-36.07,-2004.36},
{1,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},59.2,501.82},
{1,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},-5.77,448.76},
{1,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},-179.73,164.33},
{1,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},5.7,288.49},
{1,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},23.87,-214.5},
{1,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},2.86,-154.91},
{1,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},2.16,-119.21},
{1,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},1.16,-74.33},
{1,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},1.46,70.31},
{1,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},-0.42,58.94},
{1,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.96,57.12},
{1,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-1.07,-54.19},
{1,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},0.92,36.78},
{1,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},0.68,-31.01},
{1,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},0.74,29.6},
{1,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.61,-27.59},
{1,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},-11.19,-15.07},
{1,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.4,-24.05},
{1,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},-0.81,19.06},
{1,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},3.18,15.32},
{1,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},-0.08,-17.9},
{1,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},-0.16,15.55},
{1,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},-0.77,14.4},
{1,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.25,11.67},
{1,{0,0,1,-1,1,0,0,-1,0,-2,5,0,0,0},6.18,3.58},
{1,{0,1,2,0,2,0,0,0,0,0,0,0,0,0},-1.01,-7.27},
{1,{0,1,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.99,6.87},
{1,{0,0,2,2,1,0,0,0,0,0,0,0,0,0},-0.27,7.49},
{1,{0,0,0,2,1,0,0,0,0,0,0,0,0,0},-0.3,7.31},
{1,{1,0,2,2,2,0,0,0,0,0,0,0,0,0},0.2,7.3},
{1,{2,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.33,6.8},
{1,{1,0,2,-2,1,0,0,0,0,0,0,0,0,0},0.27,-6.81},
{1,{0,0,0,2,-1,0,0,0,0,0,0,0,0,0},0.35,6.08},
{1,{0,1,-2,2,-1,0,0,0,0,0,0,0,0,0},0.34,6.09},
{1,{2,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.14,-6.19},
{1,{2,0,2,0,1,0,0,0,0,0,0,0,0,0},0.14,6.02},
{1,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},2.71,-2.76},
{1,{2,0,0,-2,1,0,0,0,0,0,0,0,0,0},-0.08,-4.93},
{1,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1},2.85,-1.77},
{1,{0,1,2,-2,1,0,0,0,0,0,0,0,0,0},-0.07,-4.27},
{1,{0,2,0,0,0,0,0,0,0,0,0,0,0,0},-3.71,0.38},
{1,{0,1,-1,1,-1,0,0,0,0,0,0,0,0,0},3.75,0.04},
{1,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.82,-2.73},
{1,{2,0,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.06,2.93},
{1,{2,0,0,0,-1,0,0,0,0,0,0,0,0,0},-0.04,2.83},
{1,{3,0,2,0,2,0,0,0,0,0,0,0,0,0},0.08,2.75},
{1,{1,-1,2,0,2,0,0,0,0,0,0,0,0,0},0.07,2.75},
{1,{1,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.07,2.7},
{1,{0,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.07,2.52},
{1,{2,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.05,-2.53},
{1,{1,0,-2,2,-1,0,0,0,0,0,0,0,0,0},-0.04,2.4},
{1,{1,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.06,-2.37},
{1,{0,0,1,-1,1,0,-8,12,0,0,0,0,0,0},0.69,-1.45},
{1,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2},-0.04,2},
{1,{1,0,-1,0,-1,0,0,0,0,0,0,0,0,0},1.99,0.02},
{1,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},-0.94,1.07},
{1,{1,0,0,0,2,0,0,0,0,0,0,0,0,0},0.04,1.91},
{1,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},-0.58,-1.36},
{1,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.52,-1.25},
{1,{0,0,2,1,2,0,0,0,0,0,0,0,0,0},-0.04,-1.59},
{1,{1,0,0,-1,0,0,0,0,0,0,0,0,0,0},0.4,-1.23},
{1,{1,-1,0,-1,-1,0,0,0,0,0,0,0,0,0},0.03,-1.57},
{1,{0,2,-2,2,-1,0,0,0,0,0,0,0,0,0},-0.03,1.5},
{1,{1,0,2,2,1,0,0,0,0,0,0,0,0,0},0.04,1.48},
{1,{1,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.04,1.45},
{1,{1,0,0,0,-2,0,0,0,0,0,0,0,0,0},0.03,-1.36},
{1,{2,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.03,-1.32},
{1,{1,1,2,-2,2,0,0,0,0,0,0,0,0,0},-0.03,-1.24},
{1,{2,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.02,-1.18},
{1,{2,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.03,1.16},
{1,{1,0,0,-1,-1,0,0,0,0,0,0,0,0,0},0.04,-1.11},
{1,{0,0,0,0,0,0,0,0,0,2,0,0,0,2},0.02,1.13},
{1,{1,0,-4,0,-2,0,0,0,0,0,0,0,0,0},0.03,-1.1},
{1,{1,0,0,2,1,0,0,0,0,0,0,0,0,0},0.02,1.11},
{1,{0,0,0,0,1,0,0,-1,2,0,0,0,0,0},-0.51,0.56},
{1,{2,0,2,2,2,0,0,0,0,0,0,0,0,0},0.03,1.04},
{1,{0,0,2,-2,-1,0,0,0,0,0,0,0,0,0},0.02,-0.98},
{1,{0,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.02,-0.94},
{1,{3,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.02,-0.89},
{1,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1},0.31,0.6},
{1,{0,0,4,-2,2,0,0,0,0,0,0,0,0,0},-0.02,-0.88},
{1,{1,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0.02,-0.87},
{1,{2,0,-2,0,1,0,0,0,0,0,0,0,0,0},-0.02,-0.87},
{1,{0,0,2,0,-1,0,0,0,0,0,0,0,0,0},-0.01,0.83},
{1,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},0.43,-0.36},
{1,{0,1,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.02,0.77},
{1,{0,1,0,0,2,0,0,0,0,0,0,0,0,0},-0.01,-0.73},
{1,{1,1,0,-2,1,0,0,0,0,0,0,0,0,0},0.01,0.71},
{1,{0,0,2,-1,2,0,0,0,0,0,0,0,0,0},0.01,0.68},
{1,{0,0,2,4,2,0,0,0,0,0,0,0,0,0},0.02,0.66},
{1,{1,-1,0,0,1,0,0,0,0,0,0,0,0,0},-0.01,-0.62},
{1,{1,0,0,2,-1,0,0,0,0,0,0,0,0,0},-0.01,0.62},
{1,{0,0,1,-1,1,0,0,-1,0,2,-5,0,0,0},-0.58,-0.03},
{1,{1,-1,0,-1,-2,0,0,0,0,0,0,0,0,0},-0.01,0.58},
{1,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2},0.44,0.14},
{1,{1,-1,2,2,2,0,0,0,0,0,0,0,0,0},0.02,0.56},
{1,{1,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.13,-0.45},
{1,{0,1,0,0,-2,0,0,0,0,0,0,0,0,0},0.01,-0.57},
{1,{3,0,2,0,1,0,0,0,0,0,0,0,0,0},0.01,0.56},
{1,{1,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.01,-0.55},
{1,{1,0,2,-4,1,0,0,0,0,0,0,0,0,0},0.01,0.55},
{1,{0,0,2,-2,1,0,-5,6,0,0,0,0,0,0},-0.52,0.03},
{1,{1,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.01,0.54},
{1,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2},-0.41,-0.11},
{1,{0,1,2,2,2,0,0,0,0,0,0,0,0,0},-0.01,-0.51},
{1,{0,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.01,0.5},
{1,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2},0.01,-0.48},
{1,{1,-1,2,0,1,0,0,0,0,0,0,0,0,0},0.01,0.48},
{1,{1,0,-2,-2,0,0,0,0,0,0,0,0,0,0},0.45,-0.04},
{1,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0},-0.24,0.24},
{1,{0,0,0,1,1,0,0,0,0,0,0,0,0,0},0.01,0.46},
{1,{2,-1,2,0,2,0,0,0,0,0,0,0,0,0},0.01,0.46},
{1,{0,0,0,2,2,0,0,0,0,0,0,0,0,0},0.01,0.45},
{1,{1,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},0.01,-0.45},
{1,{0,0,0,0,1,0,0,-4,8,-3,0,0,0,0},0.35,-0.11},
{1,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2},0,-0.45},
{1,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2},-0.01,0.44},
{1,{0,0,0,0,1,0,0,4,-8,3,0,0,0,0},0.35,0.09},
{1,{1,1,0,0,1,0,0,0,0,0,0,0,0,0},0.01,0.42},
{1,{0,0,1,-1,1,0,0,0,-2,0,0,0,0,0},0.09,-0.33},
{1,{1,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.01,-0.41},
{1,{0,3,2,-2,2,0,0,0,0,0,0,0,0,0},0.01,0.4},
{1,{0,1,0,-2,1,0,0,0,0,0,0,0,0,0},0,0.41},
{1,{0,0,0,1,-1,0,0,0,0,0,0,0,0,0},0.01,-0.39},
{1,{1,0,-1,0,-2,0,0,0,0,0,0,0,0,0},-0.39,-0.01},
{1,{2,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.01,-0.39},
{1,{0,0,0,0,0,0,0,0,0,2,0,0,0,1},0.32,-0.07},
{1,{1,0,0,-2,-2,0,0,0,0,0,0,0,0,0},-0.01,0.38},
{1,{0,0,0,0,0,0,2,0,0,0,0,0,0,2},-0.01,-0.36},
{1,{1,-1,0,0,-1,0,0,0,0,0,0,0,0,0},-0.01,0.36},
{1,{1,0,-2,2,-2,0,0,0,0,0,0,0,0,0},0.01,-0.34},
{1,{2,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},0.01,-0.34},
{1,{0,0,0,0,0,0,1,1,0,0,0,0,0,2},0.01,0.33},
{1,{0,0,2,1,1,0,0,0,0,0,0,0,0,0},-0.01,-0.32},
{1,{1,0,2,-1,2,0,0,0,0,0,0,0,0,0},0.01,0.32},
{1,{1,0,2,1,2,0,0,0,0,0,0,0,0,0},-0.01,-0.32},
{1,{1,0,-2,0,1,0,0,0,0,0,0,0,0,0},-0.01,-0.31},
{1,{0,0,1,-1,1,0,0,-1,0,0,-1,0,0,0},0.1,-0.21},
{1,{0,0,1,0,1,0,0,0,0,0,0,0,0,0},-0.31,0},
{1,{1,0,0,-2,2,0,0,0,0,0,0,0,0,0},-0.01,-0.3},
{1,{1,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.07,-0.24},
{1,{1,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},-0.01,0.29},
{1,{1,1,2,-2,1,0,0,0,0,0,0,0,0,0},-0.01,-0.29},
{1,{0,0,1,-1,1,0,0,-1,0,-1,0,0,0,0},0.23,0.06},
{1,{1,0,-2,1,-1,0,0,0,0,0,0,0,0,0},0,0.29},
{1,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1},0.26,0.02},
{1,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2},0.25,0.02},
{1,{0,1,0,-2,0,0,0,0,0,0,0,0,0,0},0.09,-0.18},
{1,{2,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.27},
{1,{0,0,0,0,0,0,0,1,0,1,0,0,0,2},0.01,0.25},
{1,{1,1,0,-2,0,0,0,0,0,0,0,0,0,0},0.14,-0.11},
{1,{1,1,0,0,-1,0,0,0,0,0,0,0,0,0},0,-0.25},
{1,{2,1,2,-2,2,0,0,0,0,0,0,0,0,0},-0.01,-0.24},
{1,{4,0,2,0,2,0,0,0,0,0,0,0,0,0},0.01,0.24},
{1,{0,1,2,1,2,0,0,0,0,0,0,0,0,0},0.01,0.23},
{1,{1,0,4,-2,2,0,0,0,0,0,0,0,0,0},-0.01,-0.23},
{1,{0,1,0,2,1,0,0,0,0,0,0,0,0,0},0,-0.23},
{1,{2,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,0.23},
{1,{1,0,-4,0,-1,0,0,0,0,0,0,0,0,0},0,-0.22},
{1,{2,0,2,2,1,0,0,0,0,0,0,0,0,0},0.01,0.21},
{1,{1,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0,0.21},
{1,{0,0,0,0,0,0,0,0,0,0,2,0,0,1},0.14,-0.06},
{1,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2},-0.17,0.03},
{1,{0,0,1,-1,1,0,-5,7,0,0,0,0,0,0},0.03,-0.17},
{1,{0,0,1,-1,1,0,0,-1,0,2,0,0,0,0},-0.17,0.03},
{1,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2},0.1,-0.09},
{1,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2},0,-0.19},
{1,{0,0,1,-1,1,0,0,-1,0,0,2,0,0,0},-0.13,0.06},
{1,{0,0,2,-4,1,0,0,0,0,0,0,0,0,0},0,0.19},
{1,{0,0,2,-3,2,0,0,0,0,0,0,0,0,0},0,0.19},
{1,{1,0,2,0,2,0,0,1,0,0,0,0,0,0},-0.06,-0.13},
{1,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2},-0.03,0.15},
{1,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2},0,0.18},
{1,{0,0,4,0,2,0,0,0,0,0,0,0,0,0},0,-0.18},
{1,{0,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.18},
{1,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0},-0.09,-0.09},
{1,{1,0,-2,0,-2,0,0,4,-8,3,0,0,0,0},0.06,0.12},
{1,{0,0,0,0,0,0,0,2,0,1,0,0,0,2},-0.01,-0.16},
{1,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2},-0.17,0},
{1,{0,0,0,4,1,0,0,0,0,0,0,0,0,0},0,0.17},
{1,{1,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,0.17},
{1,{2,0,0,-2,-2,0,0,0,0,0,0,0,0,0},0,-0.17},
{1,{3,0,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.17},
{1,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2},0.11,0.06},
{1,{1,0,-2,0,0,0,0,0,0,0,0,0,0,0},-0.08,0.09},
{1,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1},-0.13,-0.03},
{1,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1},-0.13,0.03},
{1,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2},0.1,-0.06},
{1,{0,0,4,-2,1,0,0,0,0,0,0,0,0,0},0,-0.16},
{1,{1,0,2,4,2,0,0,0,0,0,0,0,0,0},0.01,0.15},
{1,{0,0,0,0,0,0,0,1,2,0,0,0,0,2},-0.07,0.08},
{1,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2},-0.07,-0.08},
{1,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2},-0.01,-0.14},
{1,{1,1,0,0,0,0,0,0,0,0,0,0,0,0},0.07,0.08},
{1,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2},-0.09,-0.06},
{1,{1,1,-2,0,-2,0,0,0,0,0,0,0,0,0},0,0.15},
{1,{2,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.15},
{1,{3,0,0,0,-1,0,0,0,0,0,0,0,0,0},0,0.15},
{1,{0,0,0,0,1,0,8,-13,0,0,0,0,0,0},0.08,-0.06},
{1,{0,0,1,-1,1,0,0,3,-8,3,0,0,0,0},0,0.14},
{1,{0,0,2,-2,1,0,-3,3,0,0,0,0,0,0},0,-0.14},
{1,{0,0,2,-1,1,0,0,0,0,0,0,0,0,0},0,0.14},
{1,{1,1,2,2,2,0,0,0,0,0,0,0,0,0},0,-0.14},
{1,{2,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0,-0.14},
{1,{3,0,0,0,0,0,0,0,0,0,0,0,0,0},-0.03,-0.11},
{1,{3,0,2,2,2,0,0,0,0,0,0,0,0,0},0.01,0.13},
{1,{0,0,0,0,0,0,0,0,0,3,0,0,0,2},0.02,0.12},
{1,{1,0,0,-1,1,0,0,0,0,0,0,0,0,0},0.02,-0.12},
{1,{0,0,0,0,0,0,0,0,0,0,2,0,0,2},0,0.13},
{1,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1},-0.02,-0.11},
{1,{0,0,2,4,1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{1,-1,-2,2,-1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{1,-1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{1,0,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{2,0,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{2,0,0,-2,1,0,0,-2,0,3,0,0,0,0},-0.02,-0.11},
{1,{2,0,0,2,1,0,0,0,0,0,0,0,0,0},0,0.13},
{1,{2,1,-2,0,-1,0,0,0,0,0,0,0,0,0},0.01,-0.12},
{1,{0,0,0,0,1,0,-8,13,0,0,0,0,0,0},0.07,0.05},
{1,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2},0,-0.12},
{1,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2},0,-0.12},
{1,{0,0,0,1,0,0,0,0,0,0,0,0,0,0},0.08,-0.04},
{1,{0,0,0,2,-2,0,0,0,0,0,0,0,0,0},0,-0.12},
{1,{0,0,1,-1,1,0,0,-5,8,-3,0,0,0,0},0,-0.12},
{1,{0,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,0.12},
{1,{1,-1,0,-2,-2,0,0,0,0,0,0,0,0,0},0,0.12},
{1,{1,0,0,-4,0,0,0,0,0,0,0,0,0,0},0.03,-0.09},
{1,{1,0,0,0,-1,0,-18,16,0,0,0,0,0,0},0.04,0.08},
{1,{2,0,2,-4,1,0,0,0,0,0,0,0,0,0},0,-0.12},
{1,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2},0,-0.11},
{1,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2},0.11,0},
{1,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2},-0.11,0},
{1,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2},0,-0.11},
{1,{0,0,0,0,1,0,0,0,0,-2,5,0,0,0},0.02,-0.09},
{1,{0,0,0,0,1,0,0,0,0,2,-5,0,0,0},0.02,0.09},
{1,{0,2,0,0,1,0,0,0,0,0,0,0,0,0},0,0.11},
{1,{0,2,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.11},
{1,{1,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},0,-0.11},
{1,{1,-1,2,2,1,0,0,0,0,0,0,0,0,0},0,0.11},
{1,{1,0,2,0,-1,0,0,0,0,0,0,0,0,0},0,0.11},
{1,{2,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,0.11},
{1,{4,0,2,-2,2,0,0,0,0,0,0,0,0,0},0,-0.11},
{1,{0,0,0,0,1,0,0,0,0,1,0,0,0,0},-0.08,-0.02},
{1,{1,-1,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.1},
{1,{1,0,0,0,1,0,-18,16,0,0,0,0,0,0},-0.03,-0.07},
{1,{1,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,0.1},
{1,{2,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},0,-0.1},
{1,{2,0,0,-2,2,0,0,0,0,0,0,0,0,0},0,0.1},
{1,{2,1,0,-2,1,0,0,0,0,0,0,0,0,0},0,-0.1},
{2,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},2037.98,81.46},
{2,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},155.74,-2.75},
{2,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},26.92,-0.46},
{2,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-24.43,0.47},
{2,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},-17.36,-0.5},
{2,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},-8.41,0.01},
{2,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},6.08,-1.36},
{2,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},4.59,0.17},
{2,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},3.57,-0.06},
{2,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},2.54,0.6},
{2,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},1.86,0},
{2,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},-1.52,-0.07},
{2,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},1.46,0.04},
{2,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.75,-0.02},
{2,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.75,0},
{2,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.71,-0.01},
{2,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},-0.69,0.02},
{2,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},0.61,0.02},
{2,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.54,-0.04},
{2,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},-0.56,0},
{2,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},0.46,-0.02},
{2,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},0.38,-0.01},
{2,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},0.37,-0.02},
{2,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.34,0.01},
{2,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},-0.35,0},
{2,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.31,0},
{2,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},0.19,-0.09},
{2,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},0.26,0},
{2,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.24,-0.01},
{2,{0,2,0,0,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{2,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.18,-0.01},
{2,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},0.17,0},
{2,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},0.15,0.01},
{2,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},-0.15,0},
{2,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0},-0.13,0},
{2,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.12,0},
{3,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},1.73,-20.39},
{3,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},0,-1.27},
{3,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},0,-0.22},
{3,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},0,0.2},
{4,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.1,-0.02},
};
static const CipTerm CIP_Y[] = {
{0,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},1538.18,9205236.26},
{0,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},-458.66,573033.42},
{0,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},137.41,97846.69},
{0,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-29.05,-89618.24},
{0,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},-17.4,22438.42},
{0,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},31.8,20069.5},
{0,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},36.7,12902.66},
{0,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},-13.2,-9592.72},
{0,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},-192.4,7387.02},
{0,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},3.92,-6918.22},
{0,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},0.4,-5331.13},
{0,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.9,-3323.89},
{0,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},7.5,3143.98},
{0,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},7.8,2636.13},
{0,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-6.6,2554.51},
{0,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-2,-2423.59},
{0,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},6.8,1645.01},
{0,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},0,-1387},
{0,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},5.9,1323.81},
{0,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.3,-1233.89},
{0,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.3,-1075.6},
{0,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},-4.48,852.85},
{0,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.1,-800.34},
{0,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},35.8,-674.99},
{0,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},-1.4,695.54},
{0,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},-0.5,684.99},
{0,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},-2.62,643.75},
{0,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-1.5,522.11},
{0,{0,0,1,-1,1,0,0,-1,0,-2,5,0,0,0},273.5,164.7},
{0,{0,0,2,2,1,0,0,0,0,0,0,0,0,0},1.4,335.24},
{0,{1,0,2,2,2,0,0,0,0,0,0,0,0,0},1.9,326.6},
{0,{0,0,0,2,1,0,0,0,0,0,0,0,0,0},0.4,327.11},
{0,{0,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.5,-325.03},
{0,{0,1,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.4,307.03},
{0,{2,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.5,304.17},
{0,{1,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.1,-304.46},
{0,{2,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.4,-276.81},
{0,{0,0,0,2,-1,0,0,0,0,0,0,0,0,0},0.9,272.05},
{0,{0,1,-2,2,-1,0,0,0,0,0,0,0,0,0},0.3,272.22},
{0,{2,0,2,0,1,0,0,0,0,0,0,0,0,0},1.2,269.45},
{0,{2,0,0,-2,1,0,0,0,0,0,0,0,0,0},0.1,-220.67},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1},128.6,-77.1},
{0,{0,1,2,-2,1,0,0,0,0,0,0,0,0,0},0.1,-190.79},
{0,{0,1,-1,1,-1,0,0,0,0,0,0,0,0,0},167.9,0},
{0,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},-8.2,-123.48},
{0,{2,0,-2,0,-2,0,0,0,0,0,0,0,0,0},0.1,131.04},
{0,{2,0,0,0,-1,0,0,0,0,0,0,0,0,0},0.4,126.64},
{0,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},2.9,-122.28},
{0,{3,0,2,0,2,0,0,0,0,0,0,0,0,0},0.7,123.2},
{0,{1,-1,2,0,2,0,0,0,0,0,0,0,0,0},0.4,123.2},
{0,{1,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.3,120.7},
{0,{0,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.5,112.9},
{0,{2,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.2,-112.94},
{0,{1,0,-2,2,-1,0,0,0,0,0,0,0,0,0},0.2,107.31},
{0,{1,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.3,-106.2},
{0,{0,0,1,-1,1,0,-8,12,0,0,0,0,0,0},31.9,-64.1},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2},0,89.5},
{0,{1,0,-1,0,-1,0,0,0,0,0,0,0,0,0},89.1,0},
{0,{1,0,0,0,2,0,0,0,0,0,0,0,0,0},0,85.32},
{0,{0,0,2,1,2,0,0,0,0,0,0,0,0,0},-0.2,-71},
{0,{1,-1,0,-1,-1,0,0,0,0,0,0,0,0,0},0,-70.01},
{0,{1,0,0,-1,0,0,0,0,0,0,0,0,0,0},13.9,-55.3},
{0,{0,2,-2,2,-1,0,0,0,0,0,0,0,0,0},0,67.25},
{0,{1,0,2,2,1,0,0,0,0,0,0,0,0,0},0.4,66.29},
{0,{1,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.4,64.7},
{0,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},1.3,-60.9},
{0,{1,0,0,0,-2,0,0,0,0,0,0,0,0,0},-0.2,-60.92},
{0,{2,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.2,-59.2},
{0,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},1.1,-55.55},
{0,{1,1,2,-2,2,0,0,0,0,0,0,0,0,0},0,-55.6},
{0,{2,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.1,-52.69},
{0,{2,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.2,51.8},
{0,{1,0,0,-1,-1,0,0,0,0,0,0,0,0,0},1,-49.51},
{0,{0,0,0,0,0,0,0,0,0,2,0,0,0,2},0,50.5},
{0,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},2.5,47.7},
{0,{1,0,0,2,1,0,0,0,0,0,0,0,0,0},0.1,49.59},
{0,{1,0,-4,0,-2,0,0,0,0,0,0,0,0,0},0.1,-49},
{0,{0,0,0,0,1,0,0,-1,2,0,0,0,0,0},-23.2,24.6},
{0,{2,0,2,2,2,0,0,0,0,0,0,0,0,0},0.4,46.5},
{0,{0,0,2,-2,-1,0,0,0,0,0,0,0,0,0},-0.1,-44.04},
{0,{0,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.1,-42.19},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1},13.3,26.9},
{0,{3,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.1,-39.9},
{0,{0,0,4,-2,2,0,0,0,0,0,0,0,0,0},-0.1,-39.5},
{0,{1,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,-39.11},
{0,{2,0,-2,0,1,0,0,0,0,0,0,0,0,0},-0.1,-38.92},
{0,{0,0,2,0,-1,0,0,0,0,0,0,0,0,0},0.1,36.95},
{0,{0,1,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.1,34.59},
{0,{0,1,0,0,2,0,0,0,0,0,0,0,0,0},0.2,-32.55},
{0,{1,1,0,-2,1,0,0,0,0,0,0,0,0,0},-0.1,31.61},
{0,{0,0,2,-1,2,0,0,0,0,0,0,0,0,0},0,30.4},
{0,{0,0,2,4,2,0,0,0,0,0,0,0,0,0},0.2,29.4},
{0,{1,-1,0,0,1,0,0,0,0,0,0,0,0,0},0,-27.91},
{0,{1,0,0,2,-1,0,0,0,0,0,0,0,0,0},0.1,27.5},
{0,{0,0,1,-1,1,0,0,-1,0,2,-5,0,0,0},-25.7,-1.7},
{0,{1,-1,0,-1,-2,0,0,0,0,0,0,0,0,0},0,25.8},
{0,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2},19.9,5.9},
{0,{1,-1,2,2,2,0,0,0,0,0,0,0,0,0},0.2,25.2},
{0,{0,1,0,0,-2,0,0,0,0,0,0,0,0,0},0,-25.31},
{0,{3,0,2,0,1,0,0,0,0,0,0,0,0,0},0.2,25},
{0,{1,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.1,-24.4},
{0,{1,0,2,-4,1,0,0,0,0,0,0,0,0,0},-0.1,24.4},
{0,{0,0,2,-2,1,0,-5,6,0,0,0,0,0,0},-23.3,0.9},
{0,{1,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.1,24},
{0,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2},-18,-5.3},
{0,{0,1,2,2,2,0,0,0,0,0,0,0,0,0},-0.1,-22.8},
{0,{0,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.1,22.5},
{0,{1,-1,2,0,1,0,0,0,0,0,0,0,0,0},0.1,21.6},
{0,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2},0,-21.3},
{0,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2},0.7,-20.1},
{0,{2,-1,2,0,2,0,0,0,0,0,0,0,0,0},0.1,20.7},
{0,{0,0,0,1,1,0,0,0,0,0,0,0,0,0},0,20.51},
{0,{0,0,0,0,1,0,0,-4,8,-3,0,0,0,0},15.9,-4.5},
{0,{1,0,0,2,0,0,0,0,0,0,0,0,0,0},0.2,-19.94},
{0,{0,0,0,2,2,0,0,0,0,0,0,0,0,0},0,20.11},
{0,{0,0,0,0,1,0,0,4,-8,3,0,0,0,0},15.6,4.4},
{0,{1,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},0,-20},
{0,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2},0,19.8},
{0,{1,1,0,0,1,0,0,0,0,0,0,0,0,0},0,18.91},
{0,{0,0,1,-1,1,0,0,0,-2,0,0,0,0,0},4.3,-14.6},
{0,{1,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.1,-18.5},
{0,{0,1,0,-2,1,0,0,0,0,0,0,0,0,0},-0.1,18.4},
{0,{0,3,2,-2,2,0,0,0,0,0,0,0,0,0},0,18.1},
{0,{0,2,0,0,0,0,0,0,0,0,0,0,0,0},1,16.81},
{0,{2,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.1,-17.6},
{0,{1,0,-1,0,-2,0,0,0,0,0,0,0,0,0},-17.6,0},
{0,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},-1.3,-16.26},
{0,{0,0,0,1,-1,0,0,0,0,0,0,0,0,0},0,-17.41},
{0,{0,0,0,0,0,0,0,0,0,2,0,0,0,1},14.5,-2.7},
{0,{1,0,0,-2,-2,0,0,0,0,0,0,0,0,0},0,17.08},
{0,{1,-1,0,0,-1,0,0,0,0,0,0,0,0,0},0,16.21},
{0,{0,0,0,0,0,0,2,0,0,0,0,0,0,2},0,-16},
{0,{1,0,-2,2,-2,0,0,0,0,0,0,0,0,0},0,-15.31},
{0,{2,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},0,-15.1},
{0,{0,0,0,0,0,0,1,1,0,0,0,0,0,2},0,14.7},
{0,{0,0,2,1,1,0,0,0,0,0,0,0,0,0},0,-14.4},
{0,{1,0,2,-1,2,0,0,0,0,0,0,0,0,0},0,14.4},
{0,{1,0,2,1,2,0,0,0,0,0,0,0,0,0},-0.1,-14.3},
{0,{1,0,-2,0,1,0,0,0,0,0,0,0,0,0},0,-13.81},
{0,{0,0,1,-1,1,0,0,-1,0,0,-1,0,0,0},4.5,-9.3},
{0,{0,0,1,0,1,0,0,0,0,0,0,0,0,0},-13.8,0},
{0,{1,0,0,-2,2,0,0,0,0,0,0,0,0,0},0,-13.38},
{0,{1,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},-0.1,13.1},
{0,{0,0,1,-1,1,0,0,-1,0,-1,0,0,0,0},10.3,2.7},
{0,{1,0,-2,1,-1,0,0,0,0,0,0,0,0,0},0,12.8},
{0,{1,1,2,-2,1,0,0,0,0,0,0,0,0,0},0,-12.8},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1},11.7,0.8},
{0,{2,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-12},
{0,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2},11.3,0.5},
{0,{0,0,0,0,0,0,0,1,0,1,0,0,0,2},0,11.4},
{0,{1,1,0,0,-1,0,0,0,0,0,0,0,0,0},0,-11.2},
{0,{4,0,2,0,2,0,0,0,0,0,0,0,0,0},0.1,10.9},
{0,{1,0,2,0,0,0,0,0,0,0,0,0,0,0},0.1,-10.77},
{0,{2,1,2,-2,2,0,0,0,0,0,0,0,0,0},0,-10.8},
{0,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0},-0.2,10.47},
{0,{2,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,10.5},
{0,{0,1,2,1,2,0,0,0,0,0,0,0,0,0},0,10.4},
{0,{1,0,4,-2,2,0,0,0,0,0,0,0,0,0},0,-10.4},
{0,{0,1,0,2,1,0,0,0,0,0,0,0,0,0},0,-10.2},
{0,{1,0,-4,0,-1,0,0,0,0,0,0,0,0,0},0,-10},
{0,{1,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0,9.6},
{0,{2,0,2,2,1,0,0,0,0,0,0,0,0,0},0.1,9.4},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2},-7.6,1.7},
{0,{0,0,1,-1,1,0,0,-1,0,2,0,0,0,0},-7.7,1.4},
{0,{0,0,1,-1,1,0,-5,7,0,0,0,0,0,0},1.4,-7.5},
{0,{0,0,0,0,0,0,0,0,0,0,2,0,0,1},6.1,-2.7},
{0,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2},0,-8.7},
{0,{0,0,1,-1,1,0,0,-1,0,0,2,0,0,0},-5.9,2.6},
{0,{0,0,2,-4,1,0,0,0,0,0,0,0,0,0},0,8.4},
{0,{0,1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.2,-8.11},
{0,{0,0,2,-3,2,0,0,0,0,0,0,0,0,0},0,8.3},
{0,{1,0,2,0,2,0,0,1,0,0,0,0,0,0},-2.6,-5.7},
{0,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2},4.2,-4},
{0,{1,0,-2,0,-2,0,0,4,-8,3,0,0,0,0},2.7,5.5},
{0,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2},-0.1,8},
{0,{0,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,8.09},
{0,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2},-1.3,6.7},
{0,{0,0,4,0,2,0,0,0,0,0,0,0,0,0},0,-7.9},
{0,{0,0,0,4,1,0,0,0,0,0,0,0,0,0},0,7.8},
{0,{0,0,0,0,0,0,0,2,0,1,0,0,0,2},-0.5,-7.2},
{0,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2},-7.5,-0.2},
{0,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2},4.9,2.7},
{0,{1,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,7.5},
{0,{3,0,2,-2,1,0,0,0,0,0,0,0,0,0},0,-7.5},
{0,{2,0,0,-2,-2,0,0,0,0,0,0,0,0,0},0,-7.49},
{0,{0,0,4,-2,1,0,0,0,0,0,0,0,0,0},0,-7.2},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1},-5.7,-1.3},
{0,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1},-5.6,1.4},
{0,{1,0,2,4,2,0,0,0,0,0,0,0,0,0},0.1,6.9},
{0,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2},4.2,-2.7},
{0,{1,1,-2,0,-2,0,0,0,0,0,0,0,0,0},0,6.9},
{0,{2,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,6.9},
{0,{0,0,0,0,0,0,0,1,2,0,0,0,0,2},-3.1,3.7},
{0,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2},-3.9,-2.9},
{0,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2},-3.1,-3.5},
{0,{3,0,0,0,-1,0,0,0,0,0,0,0,0,0},0,6.6},
{0,{1,0,0,-1,1,0,0,0,0,0,0,0,0,0},1.1,-5.39},
{0,{0,0,0,0,0,0,0,0,0,3,0,0,0,2},0.9,5.5},
{0,{2,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0,-6.4},
{0,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2},-0.1,-6.2},
{0,{0,0,2,-2,1,0,-3,3,0,0,0,0,0,0},0,-6.3},
{0,{0,0,1,-1,1,0,0,3,-8,3,0,0,0,0},0,6.1},
{0,{0,0,2,-1,1,0,0,0,0,0,0,0,0,0},0,6.1},
{0,{1,1,2,2,2,0,0,0,0,0,0,0,0,0},0,-6.1},
{0,{0,0,0,0,1,0,8,-13,0,0,0,0,0,0},3.5,-2.5},
{0,{0,0,2,4,1,0,0,0,0,0,0,0,0,0},0,6},
{0,{1,-1,0,-2,-1,0,0,0,0,0,0,0,0,0},0,5.9},
{0,{0,0,0,0,0,0,0,0,0,0,2,0,0,2},0,5.7},
{0,{1,-1,-2,2,-1,0,0,0,0,0,0,0,0,0},0,5.7},
{0,{2,0,0,-2,1,0,0,-2,0,3,0,0,0,0},-0.9,-4.8},
{0,{2,0,0,2,1,0,0,0,0,0,0,0,0,0},0,5.7},
{0,{3,0,2,2,2,0,0,0,0,0,0,0,0,0},0.1,5.6},
{0,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1},-0.9,-4.7},
{0,{2,1,-2,0,-1,0,0,0,0,0,0,0,0,0},0.2,-5.4},
{0,{1,0,0,-4,1,0,0,0,0,0,0,0,0,0},0,5.6},
{0,{2,0,0,-4,1,0,0,0,0,0,0,0,0,0},0,5.6},
{0,{0,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,5.5},
{0,{1,1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.4,-5.1},
{0,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2},0,-5.4},
{0,{1,0,0,0,-1,0,-18,16,0,0,0,0,0,0},1.8,3.6},
{0,{2,0,2,-4,1,0,0,0,0,0,0,0,0,0},0,-5.4},
{0,{0,0,1,-1,1,0,0,-5,8,-3,0,0,0,0},0,-5.3},
{0,{1,-1,0,-2,-2,0,0,0,0,0,0,0,0,0},0,5.3},
{0,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2},0,-5.2},
{0,{0,0,0,2,-2,0,0,0,0,0,0,0,0,0},0,-5.19},
{0,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2},0,-5.1},
{0,{0,0,0,0,1,0,-8,13,0,0,0,0,0,0},3,2.1},
{0,{0,2,0,0,1,0,0,0,0,0,0,0,0,0},0,5.07},
{0,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2},-5,0},
{0,{0,0,0,0,1,0,0,0,0,-2,5,0,0,0},0.9,-4.1},
{0,{1,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},0,-5},
{0,{1,-1,2,2,1,0,0,0,0,0,0,0,0,0},0,5},
{0,{3,0,0,0,0,0,0,0,0,0,0,0,0,0},0,-5},
{0,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2},0,-4.9},
{0,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2},4.9,0},
{0,{4,0,2,-2,2,0,0,0,0,0,0,0,0,0},0,-4.9},
{0,{0,0,0,0,1,0,0,0,0,1,0,0,0,0},-3.7,-1.1},
{0,{0,0,0,0,1,0,0,0,0,2,-5,0,0,0},0.9,3.9},
{0,{2,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,4.8},
{0,{0,2,2,-2,1,0,0,0,0,0,0,0,0,0},0,-4.72},
{0,{1,0,2,0,-1,0,0,0,0,0,0,0,0,0},0,4.71},
{0,{1,0,0,0,1,0,-18,16,0,0,0,0,0,0},-1.5,-3},
{0,{2,-1,-2,0,-1,0,0,0,0,0,0,0,0,0},0,-4.5},
{0,{2,1,0,-2,1,0,0,0,0,0,0,0,0,0},0,-4.5},
{0,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0},0.3,-4.11},
{0,{1,-1,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-4.4},
{0,{1,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,4.4},
{0,{2,0,0,-2,2,0,0,0,0,0,0,0,0,0},0,4.39},
{0,{0,1,2,2,1,0,0,0,0,0,0,0,0,0},0,-4.3},
{0,{2,0,-2,2,-1,0,0,0,0,0,0,0,0,0},0,4.3},
{0,{3,0,0,0,1,0,0,0,0,0,0,0,0,0},0,-4.3},
{0,{1,0,-2,0,0,0,0,0,0,0,0,0,0,0},0.2,4.03},
{0,{0,2,-2,0,-2,0,0,0,0,0,0,0,0,0},0.2,4},
{0,{0,0,1,-1,1,0,0,-1,0,0,1,0,0,0},-0.6,3.5},
{0,{3,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0,4.1},
{0,{0,1,-2,1,-2,0,0,0,0,0,0,0,0,0},0,-4},
{0,{1,0,-4,2,-2,0,0,0,0,0,0,0,0,0},0,4},
{0,{1,0,0,-4,0,0,0,0,0,0,0,0,0,0},0,-3.91},
{0,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-1},3.1,-0.8},
{0,{0,0,0,0,1,0,0,1,-2,0,0,0,0,0},1.9,2},
{0,{0,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,3.9},
{0,{1,0,-2,-3,-2,0,0,0,0,0,0,0,0,0},0,-3.9},
{0,{2,-1,2,0,1,0,0,0,0,0,0,0,0,0},0,3.9},
{0,{2,-1,2,2,2,0,0,0,0,0,0,0,0,0},0,3.9},
{0,{2,0,0,0,2,0,0,0,0,0,0,0,0,0},0,3.9},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,2},0,3.8},
{0,{1,1,0,0,0,0,0,0,0,0,0,0,0,0},-0.2,3.51},
{0,{0,0,0,0,0,0,0,1,0,2,0,0,0,2},-2.1,1.5},
{0,{1,0,-2,-1,-2,0,0,0,0,0,0,0,0,0},0,-3.6},
{0,{1,1,-2,1,-1,0,0,0,0,0,0,0,0,0},0,-3.6},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,-1},-2.8,0.7},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,0},0,-3.5},
{0,{0,0,0,0,0,0,2,-2,0,0,0,0,0,-1},-2.9,-0.6},
{0,{0,0,0,0,0,0,3,-7,0,0,0,0,0,-2},0.7,2.8},
{0,{1,-1,0,-2,1,0,0,0,0,0,0,0,0,0},0,-3.4},
{0,{2,0,-4,0,-2,0,0,0,0,0,0,0,0,0},0,3.4},
{0,{0,0,2,0,3,0,0,0,0,0,0,0,0,0},0,3.36},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,2},1,-2.3},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-1},2.6,-0.7},
{0,{1,1,-2,0,-1,0,0,0,0,0,0,0,0,0},0,3.3},
{0,{2,0,0,-2,-1,0,0,-2,0,3,0,0,0,0},0.5,2.8},
{0,{2,1,2,0,1,0,0,0,0,0,0,0,0,0},0,-3.3},
{0,{0,2,0,0,-1,0,0,0,0,0,0,0,0,0},0,3.23},
{0,{0,0,0,0,0,0,0,0,2,0,0,0,0,2},0,3.2},
{0,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-2},0,-3.2},
{0,{0,2,2,0,2,0,0,0,0,0,0,0,0,0},0,-3.2},
{0,{1,-1,2,-2,2,0,0,0,0,0,0,0,0,0},0,3.2},
{0,{0,0,0,0,0,0,0,0,0,1,0,0,0,1},2.9,-0.3},
{0,{0,0,2,-2,3,0,0,0,0,0,0,0,0,0},0.08,3.05},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,2},-0.7,-2.4},
{0,{1,0,2,-4,2,0,0,0,0,0,0,0,0,0},0,-3.08},
{0,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-2},-2.9,-0.1},
{0,{1,0,0,-1,1,0,0,-1,0,2,0,0,0,0},-1.6,1.4},
{0,{2,0,2,-1,2,0,0,0,0,0,0,0,0,0},0,3},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,1},0.4,-2.5},
{0,{0,0,1,-1,1,0,0,-2,2,0,0,0,0,0},-2.5,0.4},
{0,{1,0,2,1,1,0,0,0,0,0,0,0,0,0},0,-2.9},
{0,{2,0,0,-2,1,0,0,-2,0,2,0,0,0,0},0,-2.9},
{0,{0,1,-2,2,0,0,0,0,0,0,0,0,0,0},0,2.89},
{0,{0,0,0,0,0,0,0,1,-2,0,0,0,0,-1},-2.5,-0.3},
{0,{0,0,1,-1,1,0,0,-1,0,1,0,0,0,0},-2.5,0.3},
{0,{2,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,-2.8},
{0,{0,0,2,-2,1,0,0,-2,0,2,0,0,0,0},0,-2.7},
{0,{1,0,-1,0,-3,0,0,0,0,0,0,0,0,0},2.7,0},
{0,{0,0,1,-1,1,0,-3,4,0,0,0,0,0,0},2.1,0.5},
{0,{0,1,0,1,1,0,0,0,0,0,0,0,0,0},0,-2.6},
{0,{0,1,0,2,-1,0,0,0,0,0,0,0,0,0},0,-2.6},
{0,{3,-1,2,0,2,0,0,0,0,0,0,0,0,0},0,2.6},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,-1},0.8,1.7},
{0,{0,0,0,0,0,0,0,6,-16,4,5,0,0,-2},1.9,-0.6},
{0,{0,1,0,1,-1,0,0,0,0,0,0,0,0,0},0,2.5},
{0,{2,0,0,0,-2,0,0,0,0,0,0,0,0,0},0,-2.5},
{0,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-1},-1.9,0.5},
{0,{1,0,2,-3,1,0,0,0,0,0,0,0,0,0},0,2.4},
{0,{1,1,-2,2,-1,0,0,0,0,0,0,0,0,0},0,-2.4},
{0,{2,0,0,-4,0,0,0,0,0,0,0,0,0,0},-0.1,-2.3},
{0,{2,0,0,2,-1,0,0,0,0,0,0,0,0,0},0,2.4},
{0,{2,0,0,2,0,0,0,0,0,0,0,0,0,0},0,-2.4},
{0,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-2},-0.1,-2.2},
{0,{0,0,0,0,0,0,0,0,4,0,0,0,0,2},-1.4,0.9},
{0,{1,1,2,-4,1,0,0,0,0,0,0,0,0,0},0,2.3},
{0,{3,1,2,0,2,0,0,0,0,0,0,0,0,0},0,-2.3},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-2},0,2.2},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,-1},-1.8,-0.4},
{0,{0,0,0,1,0,0,0,0,0,0,0,0,0,0},-0.2,-2},
{0,{0,1,2,1,1,0,0,0,0,0,0,0,0,0},0,2.2},
{0,{1,-2,2,0,2,0,0,0,0,0,0,0,0,0},0,2.2},
{0,{1,1,2,1,2,0,0,0,0,0,0,0,0,0},0,2.2},
{0,{2,-1,2,-2,2,0,0,0,0,0,0,0,0,0},0,-2.2},
{0,{4,0,2,0,1,0,0,0,0,0,0,0,0,0},0,2.2},
{0,{0,0,0,0,0,0,0,4,-4,0,0,0,0,2},-1.3,-0.8},
{0,{0,0,0,0,0,0,0,5,-4,0,0,0,0,2},-0.8,-1.3},
{0,{0,0,0,0,0,0,1,-1,0,0,0,0,0,1},-1.7,0.4},
{0,{1,-1,2,-2,1,0,0,0,0,0,0,0,0,0},0,2.1},
{0,{1,0,-2,1,-2,0,0,0,0,0,0,0,0,0},0,2.1},
{0,{1,0,2,-1,1,0,0,0,0,0,0,0,0,0},0,2.1},
{0,{1,0,4,-2,1,0,0,0,0,0,0,0,0,0},0,-2.1},
{0,{2,1,2,-2,1,0,0,0,0,0,0,0,0,0},0,-2.1},
{0,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-2},1.1,-0.9},
{0,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-1},1.6,-0.4},
{0,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-2},2,0},
{0,{1,-1,0,2,-1,0,0,0,0,0,0,0,0,0},0,2},
{0,{1,0,-2,2,1,0,0,0,0,0,0,0,0,0},0,2},
{0,{1,0,2,-2,-1,0,0,0,0,0,0,0,0,0},0,-2},
{0,{1,2,2,-2,2,0,0,0,0,0,0,0,0,0},0,-2},
{0,{2,-2,0,-2,-1,0,0,0,0,0,0,0,0,0},0,2},
{0,{1,0,-2,-2,0,0,0,0,0,0,0,0,0,0},0,-1.91},
{0,{0,0,0,0,0,0,0,4,0,-3,0,0,0,2},-0.3,1.6},
{0,{0,0,0,0,0,0,0,2,0,0,0,0,0,1},-1.5,-0.4},
{0,{0,0,0,4,-1,0,0,0,0,0,0,0,0,0},0,1.9},
{0,{0,0,0,4,0,0,0,0,0,0,0,0,0,0},0,-1.9},
{0,{0,0,1,-1,1,0,-4,5,0,0,0,0,0,0},1.5,0.4},
{0,{0,0,1,-1,1,0,0,-1,0,-4,10,0,0,0},-1.4,-0.5},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,0,2,0},-1,0.9},
{0,{0,0,4,-4,2,0,0,0,0,0,0,0,0,0},0,1.9},
{0,{1,-1,0,2,1,0,0,0,0,0,0,0,0,0},0,1.9},
{0,{2,-1,0,-2,1,0,0,0,0,0,0,0,0,0},0,1.9},
{0,{2,0,2,1,2,0,0,0,0,0,0,0,0,0},0,-1.9},
{0,{3,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,-1.9},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-1},-1.1,0.7},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-1},0.2,-1.6},
{0,{2,-1,0,0,1,0,0,0,0,0,0,0,0,0},0,-1.8},
{0,{2,0,-4,-2,-2,0,0,0,0,0,0,0,0,0},0,-1.8},
{0,{2,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},0,1.8},
{0,{0,0,2,2,0,0,0,0,0,0,0,0,0,0},0,-1.71},
{0,{0,0,0,0,0,0,0,4,-3,0,0,0,0,2},-0.6,-1.1},
{0,{0,0,0,0,1,0,0,-2,4,0,0,0,0,0},-1.1,0.6},
{0,{1,0,-2,0,-1,0,0,-1,0,0,0,0,0,0},0.6,1.1},
{0,{1,0,2,0,1,0,0,-2,0,3,0,0,0,0},-0.6,-1.1},
{0,{0,0,0,0,1,0,2,-3,0,0,0,0,0,0},-1.7,0},
{0,{0,0,1,1,1,0,0,1,0,0,0,0,0,0},1.5,0.2},
{0,{0,0,2,-2,1,0,0,-9,13,0,0,0,0,0},-1.2,-0.5},
{0,{0,0,0,0,0,0,0,0,0,3,0,0,0,1},1.2,-0.4},
{0,{0,0,0,0,0,0,0,1,-2,0,0,0,0,1},0.3,-1.3},
{0,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-2},0.6,1},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,-1},-1.3,-0.3},
{0,{0,0,1,-1,2,0,0,-1,0,0,2,0,0,0},1.1,-0.5},
{0,{0,0,2,3,2,0,0,0,0,0,0,0,0,0},0,-1.6},
{0,{0,0,4,0,1,0,0,0,0,0,0,0,0,0},0,-1.6},
{0,{0,1,-2,2,1,0,0,0,0,0,0,0,0,0},0,1.6},
{0,{1,0,0,4,1,0,0,0,0,0,0,0,0,0},0,1.6},
{0,{1,1,0,2,1,0,0,0,0,0,0,0,0,0},0,-1.6},
{0,{2,0,2,0,2,0,0,2,0,-3,0,0,0,0},-0.5,-1.1},
{0,{2,0,4,-2,2,0,0,0,0,0,0,0,0,0},0,-1.6},
{0,{0,0,0,0,0,0,0,1,-8,3,0,0,0,-2},-0.5,1},
{0,{0,0,0,0,0,0,0,1,0,-4,0,0,0,-2},0.2,-1.3},
{0,{0,0,0,0,0,0,0,4,0,-1,0,0,0,2},-1.4,0.1},
{0,{0,0,0,0,0,0,1,1,0,0,0,0,0,1},-1.2,-0.3},
{0,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-2},0,-1.5},
{0,{0,0,0,0,1,0,0,0,0,0,1,0,0,0},1.3,-0.2},
{0,{0,0,0,0,1,0,1,-1,0,0,0,0,0,0},0,1.5},
{0,{0,0,2,0,2,0,0,1,0,0,0,0,0,0},-0.5,1},
{0,{0,1,2,-2,-1,0,0,0,0,0,0,0,0,0},0,-1.5},
{0,{0,1,4,-2,2,0,0,0,0,0,0,0,0,0},0,-1.5},
{0,{1,-1,0,2,0,0,0,0,0,0,0,0,0,0},0,-1.5},
{0,{1,0,0,-1,-2,0,0,0,0,0,0,0,0,0},0,1.5},
{0,{1,0,0,-1,1,0,-3,4,0,0,0,0,0,0},1.5,0},
{0,{1,0,0,1,-1,0,0,0,0,0,0,0,0,0},0,-1.5},
{0,{1,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,1.5},
{0,{1,2,0,-2,-1,0,0,0,0,0,0,0,0,0},0,-1.5},
{0,{2,-1,0,0,-1,0,0,0,0,0,0,0,0,0},0,1.5},
{0,{2,0,2,-4,2,0,0,0,0,0,0,0,0,0},0,1.49},
{0,{0,1,0,2,0,0,0,0,0,0,0,0,0,0},0,1.41},
{0,{2,0,2,0,0,0,0,0,0,0,0,0,0,0},0,-1.41},
{0,{0,0,0,0,1,0,-3,5,0,0,0,0,0,0},-0.3,1.1},
{0,{0,0,1,-1,1,0,-1,0,0,0,0,0,0,0},1.1,-0.3},
{0,{0,0,1,0,2,0,0,0,0,0,0,0,0,0},1.4,0},
{0,{0,0,2,-3,1,0,0,0,0,0,0,0,0,0},0,-1.4},
{0,{0,0,2,-2,1,0,-4,4,0,0,0,0,0,0},0,-1.4},
{0,{1,-2,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,-1.4},
{0,{1,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},0,1.4},
{0,{1,0,2,4,1,0,0,0,0,0,0,0,0,0},0,1.4},
{0,{2,-1,0,-2,0,0,0,0,0,0,0,0,0,0},0.2,1.2},
{0,{3,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-1.4},
{0,{0,0,0,0,0,0,0,2,0,-2,0,0,0,1},1.1,0.2},
{0,{0,0,0,0,0,0,0,3,0,0,-1,0,0,2},0,-1.3},
{0,{0,0,0,0,0,0,3,-1,0,0,0,0,0,2},0,-1.3},
{0,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-2},-0.2,-1.1},
{0,{0,0,1,-1,1,0,3,-6,0,0,0,0,0,0},-0.8,0.5},
{0,{1,-2,2,2,2,0,0,0,0,0,0,0,0,0},0,1.3},
{0,{1,-1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,-1.3},
{0,{1,0,-4,-2,-2,0,0,0,0,0,0,0,0,0},0,-1.3},
{0,{1,0,0,-1,-1,0,-3,4,0,0,0,0,0,0},-1.3,0},
{0,{3,1,2,-2,2,0,0,0,0,0,0,0,0,0},0,-1.3},
{0,{0,0,1,-1,1,0,8,-14,0,0,0,0,0,0},-0.7,-0.6},
{0,{0,0,2,-4,2,0,0,0,0,0,0,0,0,0},0,-1.29},
{0,{0,0,0,0,0,0,0,0,3,0,0,0,0,2},-0.4,0.8},
{0,{0,0,0,0,0,0,0,1,-4,0,0,0,0,-2},0.4,0.8},
{0,{0,0,0,0,1,0,0,8,-15,0,0,0,0,0},-0.4,-0.8},
{0,{0,0,0,0,0,0,2,1,0,0,0,0,0,1},0.2,-1},
{0,{0,0,0,0,0,0,2,1,0,0,0,0,0,2},-1,0.2},
{0,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-2},1.2,0},
{0,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-1},-1,0.2},
{0,{0,0,1,-1,1,0,0,-3,4,0,0,0,0,0},-0.7,-0.5},
{0,{1,1,2,2,1,0,0,0,0,0,0,0,0,0},0,-1.2},
{0,{1,2,0,-2,1,0,0,0,0,0,0,0,0,0},0,1.2},
{0,{2,0,2,4,2,0,0,0,0,0,0,0,0,0},0,1.2},
{0,{2,1,0,0,-1,0,0,0,0,0,0,0,0,0},0,-1.2},
{0,{0,0,0,0,3,0,0,0,0,0,0,0,0,0},0,1.15},
{0,{0,0,0,0,0,0,0,0,0,0,0,0,2,1},0.6,-0.5},
{0,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-2},-0.4,-0.7},
{0,{0,0,0,0,0,0,0,7,-8,3,0,0,0,2},0,1.1},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,-1},-0.9,-0.2},
{0,{0,0,3,0,3,0,0,0,0,0,0,0,0,0},-1.1,0},
{0,{1,-2,2,-2,1,0,0,0,0,0,0,0,0,0},-0.5,0.6},
{0,{1,-1,-2,2,-2,0,0,0,0,0,0,0,0,0},0,-1.1},
{0,{1,0,1,0,1,0,0,0,0,0,0,0,0,0},-1.1,0},
{0,{2,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,1.1},
{0,{2,0,0,-2,1,0,-6,8,0,0,0,0,0,0},-0.2,0.9},
{0,{2,1,0,0,1,0,0,0,0,0,0,0,0,0},0,1.1},
{0,{2,1,2,2,2,0,0,0,0,0,0,0,0,0},0,-1.1},
{0,{3,0,2,-4,2,0,0,0,0,0,0,0,0,0},0,1.1},
{0,{3,0,2,2,1,0,0,0,0,0,0,0,0,0},0,1.1},
{0,{0,0,0,0,0,0,2,0,0,0,0,0,0,1},-0.8,-0.2},
{0,{0,0,0,0,0,0,3,-9,4,0,0,0,0,-2},-0.4,-0.6},
{0,{0,0,0,0,0,0,3,-5,4,0,0,0,0,2},0.4,0.6},
{0,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-2},1,0},
{0,{0,0,0,0,1,0,-2,3,0,0,0,0,0,0},1,0},
{0,{0,0,0,0,1,0,-1,1,0,0,0,0,0,0},0,1},
{0,{0,0,0,0,1,0,0,0,0,-1,0,0,0,0},0.8,-0.2},
{0,{0,0,1,-1,1,0,0,-9,15,0,0,0,0,0},1,0},
{0,{0,1,2,-4,1,0,0,0,0,0,0,0,0,0},0,1},
{0,{0,2,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,1},
{0,{0,2,0,-2,1,0,0,0,0,0,0,0,0,0},0,1},
{0,{1,-1,2,4,2,0,0,0,0,0,0,0,0,0},0,1},
{0,{1,0,-4,2,-1,0,0,0,0,0,0,0,0,0},0,1},
{0,{1,0,0,1,1,0,0,0,0,0,0,0,0,0},0,1},
{0,{1,0,0,2,2,0,0,0,0,0,0,0,0,0},0,-1},
{0,{1,0,1,-2,1,0,0,0,0,0,0,0,0,0},-1,0},
{0,{1,0,4,0,2,0,0,0,0,0,0,0,0,0},0,-1},
{0,{2,0,-2,0,2,0,0,0,0,0,0,0,0,0},0,1},
{0,{3,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0,-1},
{0,{1,0,2,-2,0,0,0,0,0,0,0,0,0,0},0,0.91},
{0,{0,0,0,0,0,0,0,2,0,0,-1,0,0,2},-0.9,0},
{0,{0,0,0,0,0,0,0,3,0,-3,0,0,0,2},-0.5,-0.4},
{0,{0,0,1,-1,1,0,-2,2,0,0,0,0,0,0},0,-0.9},
{0,{0,1,0,-2,-2,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{1,-1,0,-2,0,0,0,0,0,0,0,0,0,0},0.1,0.8},
{0,{1,-1,0,-1,0,0,0,0,0,0,0,0,0,0},0,-0.9},
{0,{1,-1,2,-1,2,0,0,0,0,0,0,0,0,0},0,-0.9},
{0,{1,0,-2,-2,1,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{1,0,-2,4,-1,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{1,2,2,0,2,0,0,0,0,0,0,0,0,0},0,-0.9},
{0,{2,0,0,-2,1,0,-3,3,0,0,0,0,0,0},0,-0.9},
{0,{2,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{3,0,-2,-6,-2,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{4,0,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.9},
{0,{5,0,2,0,2,0,0,0,0,0,0,0,0,0},0,0.9},
{0,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-2},-0.3,0.6},
{0,{0,0,0,0,0,0,1,2,0,0,0,0,0,2},0.7,-0.2},
{0,{0,0,0,0,0,0,6,-6,0,0,0,0,0,-1},-0.7,-0.2},
{0,{0,0,0,0,0,0,0,2,0,-2,5,0,0,2},-0.3,-0.5},
{0,{0,0,0,0,0,0,0,2,0,0,1,0,0,2},-0.8,0},
{0,{0,0,0,0,0,0,0,2,0,2,-5,0,0,2},-0.3,0.5},
{0,{0,0,0,0,0,0,0,3,-1,0,0,0,0,2},0,-0.8},
{0,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-2},-0.5,-0.3},
{0,{0,0,0,0,0,0,0,5,-5,0,0,0,0,2},-0.5,-0.3},
{0,{0,0,0,0,0,0,3,-5,0,0,0,0,0,1},-0.5,0.3},
{0,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-1},0.2,0.6},
{0,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-1},-0.6,0.2},
{0,{0,0,0,0,1,0,-3,7,-4,0,0,0,0,0},-0.3,0.5},
{0,{0,0,0,0,1,0,0,1,0,-1,0,0,0,0},0,-0.8},
{0,{0,0,0,0,1,0,3,-7,4,0,0,0,0,0},-0.3,-0.5},
{0,{0,0,4,-4,1,0,0,0,0,0,0,0,0,0},0,0.8},
{0,{0,1,-2,1,-1,0,0,0,0,0,0,0,0,0},0,-0.8},
{0,{0,1,0,-4,-1,0,0,0,0,0,0,0,0,0},0,0.8},
{0,{1,0,-2,-3,-1,0,0,0,0,0,0,0,0,0},0,-0.8},
{0,{1,1,0,-2,-2,0,0,0,0,0,0,0,0,0},0,0.8},
{0,{1,2,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,0.8},
{0,{2,-1,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,-0.8},
{0,{2,-1,0,0,0,0,0,0,0,0,0,0,0,0},0,-0.8},
{0,{3,0,-2,0,-2,0,0,0,0,0,0,0,0,0},0,-0.8},
{0,{3,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.8},
{0,{0,0,0,0,0,0,2,-2,0,0,0,0,0,1},-0.7,0.1},
{0,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-2},0.1,0.7},
{0,{1,0,2,0,3,0,0,0,0,0,0,0,0,0},0,0.76},
{0,{0,0,0,0,0,0,0,0,0,0,3,0,0,2},0.7,0},
{0,{0,0,0,0,0,0,0,2,0,-4,0,0,0,-2},0,-0.7},
{0,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-2},0,-0.7},
{0,{0,0,0,0,0,0,0,3,0,1,0,0,0,2},-0.5,0.2},
{0,{0,0,0,0,0,0,0,3,0,2,-5,0,0,2},0.5,-0.2},
{0,{0,0,0,0,0,0,0,4,-8,0,0,0,0,-2},0.4,0.3},
{0,{0,0,0,0,0,0,0,6,-15,0,0,0,0,-2},-0.2,-0.5},
{0,{0,0,0,0,0,0,0,11,0,0,0,0,0,2},0.2,0.5},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-2},0.5,-0.2},
{0,{0,0,0,0,0,0,3,-3,0,0,0,0,0,1},0.6,-0.1},
{0,{0,0,0,0,0,0,3,-1,0,0,0,0,0,1},-0.6,-0.1},
{0,{0,0,0,0,0,0,9,-9,0,0,0,0,0,-1},-0.2,-0.5},
{0,{0,0,0,0,1,0,3,-5,0,2,0,0,0,0},0,-0.7},
{0,{0,0,1,-1,1,0,0,-1,0,-1,1,0,0,0},0.7,0},
{0,{0,0,1,-1,1,0,0,-1,0,3,0,0,0,0},-0.5,0.2},
{0,{0,0,1,-1,1,0,2,-4,0,-3,0,0,0,0},-0.7,0},
{0,{0,0,1,-1,2,0,0,-2,2,0,0,0,0,0},0.7,0},
{0,{0,1,-4,2,-2,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{0,1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{0,1,2,4,2,0,0,0,0,0,0,0,0,0},0,-0.7},
{0,{1,-1,0,0,2,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{1,0,0,1,0,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{2,-1,2,2,1,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{2,0,-2,-3,-2,0,0,0,0,0,0,0,0,0},0,-0.7},
{0,{2,0,0,-2,-1,0,-6,8,0,0,0,0,0,0},0.1,-0.6},
{0,{3,0,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{4,0,2,2,2,0,0,0,0,0,0,0,0,0},0,0.7},
{0,{0,0,0,0,0,0,0,0,0,0,3,0,0,1},-0.2,-0.4},
{0,{0,0,0,0,0,0,0,1,-5,0,0,0,0,-2},0.4,0.2},
{0,{0,0,0,0,0,0,0,6,-6,0,0,0,0,2},-0.4,-0.2},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,2},0.4,-0.2},
{0,{0,0,0,0,0,1,0,-4,0,0,0,0,0,-2},-0.4,0.2},
{0,{0,0,0,0,1,0,0,2,-4,0,0,0,0,0},0.4,0.2},
{0,{0,0,1,-1,1,0,0,-1,0,0,3,0,0,0},0.2,0.4},
{0,{2,0,-1,-1,-1,0,0,-1,0,3,0,0,0,0},-0.4,0.2},
{0,{0,0,0,0,0,0,0,1,0,0,1,0,0,2},0,0.6},
{0,{0,0,0,0,0,0,0,1,1,0,0,0,0,2},0,0.6},
{0,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-1},-0.1,0.5},
{0,{0,0,0,0,0,0,0,5,0,-2,0,0,0,2},0.5,-0.1},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,1},0.1,0.5},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,2},-0.1,-0.5},
{0,{0,0,0,0,0,0,7,-7,0,0,0,0,0,-1},-0.5,-0.1},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,1},0.3,0.3},
{0,{0,0,0,0,1,0,0,-1,0,1,0,0,0,0},0,-0.6},
{0,{0,0,0,1,2,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{0,0,0,3,1,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{0,0,1,-1,-1,0,0,0,-2,0,0,0,0,0},0.1,-0.5},
{0,{0,0,1,-1,1,0,-2,3,0,0,0,0,0,0},0.5,0.1},
{0,{0,0,2,-2,1,0,-2,2,0,0,0,0,0,0},0,-0.6},
{0,{0,0,2,-2,2,0,-8,11,0,0,0,0,0,0},0.6,0},
{0,{0,0,2,2,-1,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{0,1,0,1,0,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{1,-1,2,-4,1,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{1,0,-2,-2,-2,0,0,-2,0,2,0,0,0,0},0,-0.6},
{0,{1,0,0,-4,-2,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{1,1,0,-4,-1,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{1,1,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{1,1,0,-2,2,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{2,0,-2,2,-2,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{2,0,0,-2,-1,0,0,-2,0,0,5,0,0,0},0,-0.6},
{0,{2,1,0,-4,-1,0,0,0,0,0,0,0,0,0},0,-0.6},
{0,{2,1,0,0,0,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{3,0,0,2,1,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{4,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,0.6},
{0,{0,0,0,0,0,0,0,0,0,4,0,0,0,2},0.1,0.4},
{0,{0,0,0,0,0,0,0,1,-3,0,0,0,0,-2},0,0.5},
{0,{0,0,0,0,0,0,0,1,0,3,0,0,0,2},-0.3,0.2},
{0,{0,0,0,0,0,0,0,2,-5,0,0,0,0,-2},0.2,0.3},
{0,{0,0,0,0,0,0,0,5,0,-3,0,0,0,2},0.1,0.4},
{0,{0,0,0,0,0,0,0,6,-11,0,0,0,0,-2},-0.5,0},
{0,{0,0,0,0,0,0,0,7,-13,0,0,0,0,-2},-0.3,0.2},
{0,{0,0,0,0,0,0,1,0,0,0,0,0,0,2},0.3,0.2},
{0,{0,0,0,0,0,0,4,-4,0,0,0,0,0,1},-0.5,0},
{0,{0,0,0,0,0,0,5,-10,0,0,0,0,0,-2},-0.4,0.1},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,2},0.4,-0.1},
{0,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-1},0,-0.5},
{0,{0,0,0,0,0,0,9,-12,0,0,0,0,0,-2},0.5,0},
{0,{0,0,0,0,1,0,3,-5,0,0,0,0,0,0},0.1,0.4},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,2,0,0},-0.4,-0.1},
{0,{0,0,1,-1,1,0,0,1,0,0,0,0,0,0},-0.5,0},
{0,{0,0,2,-2,1,-1,0,2,0,0,0,0,0,0},0.4,0.1},
{0,{0,0,2,-2,2,0,-5,6,0,0,0,0,0,0},0.5,0},
{0,{0,0,2,-2,2,0,-3,3,0,0,0,0,0,0},0,0.5},
{0,{0,0,2,0,2,0,0,-4,8,-3,0,0,0,0},0.4,-0.1},
{0,{0,0,2,0,2,0,0,4,-8,3,0,0,0,0},0.4,0.1},
{0,{0,0,2,6,2,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{0,0,3,0,2,0,0,0,0,0,0,0,0,0},-0.5,0},
{0,{0,1,-2,-1,-2,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{0,1,0,2,2,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{1,-2,0,0,1,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{1,-2,2,-2,2,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{1,0,-2,2,0,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{1,0,0,-1,2,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{1,0,0,2,-2,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{1,1,0,-4,0,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{1,1,0,0,2,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{2,0,-4,0,-1,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{2,0,-1,-1,-1,0,0,3,-7,0,0,0,0,0},0.2,0.3},
{0,{2,0,0,-2,-1,0,0,-5,6,0,0,0,0,0},-0.2,0.3},
{0,{2,0,0,-2,1,0,0,-6,8,0,0,0,0,0},0.3,-0.2},
{0,{2,0,2,0,-1,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{2,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{2,1,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{2,1,0,-2,0,0,0,0,0,0,0,0,0,0},0.1,0.4},
{0,{3,-1,-2,-1,-2,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{3,-1,2,-2,2,0,0,0,0,0,0,0,0,0},0,-0.5},
{0,{3,-1,2,2,2,0,0,0,0,0,0,0,0,0},0,0.5},
{0,{0,0,0,0,0,0,0,0,0,0,1,0,0,2},0.4,0},
{0,{0,0,0,0,0,0,0,2,0,-2,0,0,0,2},-0.1,0.3},
{0,{0,0,0,0,0,0,0,2,2,0,0,0,0,2},0.2,0.2},
{0,{0,0,0,0,0,0,0,5,-3,0,0,0,0,2},0,0.4},
{0,{0,0,0,0,0,0,0,5,-2,0,0,0,0,2},-0.4,0},
{0,{0,0,0,0,0,0,0,6,-5,0,0,0,0,2},0.1,0.3},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,0},0,-0.4},
{0,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-1},0.4,0},
{0,{0,0,0,0,0,0,2,-6,0,0,0,0,0,-2},0,0.4},
{0,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-1},0,0.4},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-1},0,-0.4},
{0,{0,0,0,0,0,0,4,-3,0,0,0,0,0,2},0.4,0},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,1},-0.4,0},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,2},0,-0.4},
{0,{0,0,0,0,0,0,5,-9,0,0,0,0,0,-2},0,-0.4},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,2},0,0.4},
{0,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-1},-0.3,0.1},
{0,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-1},-0.4,0},
{0,{0,0,0,0,0,0,8,-8,0,0,0,0,0,-1},-0.4,0},
{0,{0,0,0,0,1,0,0,-8,15,0,0,0,0,0},-0.1,0.3},
{0,{0,0,0,0,2,0,0,-1,2,0,0,0,0,0},-0.2,0.2},
{0,{0,0,1,-1,1,0,0,-1,0,-2,4,0,0,0},0.2,-0.2},
{0,{0,0,1,-1,1,0,0,-1,0,-1,2,0,0,0},-0.4,0},
{0,{0,0,1,-1,1,0,0,-1,0,0,-2,0,0,0},-0.2,-0.2},
{0,{0,0,1,-1,2,0,0,-1,0,2,0,0,0,0},0.4,0},
{0,{0,0,2,-2,-2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{0,0,2,-2,1,0,0,-8,11,0,0,0,0,0},0.4,0},
{0,{0,0,2,-2,1,0,0,-2,0,0,2,0,0,0},0,-0.4},
{0,{0,0,2,-2,1,0,0,-2,0,3,0,0,0,0},0,-0.4},
{0,{0,0,2,0,2,0,1,-1,0,0,0,0,0,0},0,-0.4},
{0,{0,0,4,-1,2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{0,2,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.1,0.3},
{0,{0,2,0,-2,0,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{0,2,2,0,1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,-2,-2,0,-2,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,-2,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{1,-1,-2,-3,-2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{1,0,-1,0,1,0,0,0,0,0,0,0,0,0},0.4,0},
{0,{1,0,0,-3,1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,0,0,4,0,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,0,2,2,0,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,0,4,-4,2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{1,1,0,-1,1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,1,0,2,-1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{1,1,0,2,0,0,0,0,0,0,0,0,0,0},-0.1,0.3},
{0,{1,1,2,1,1,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{1,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{1,2,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{2,-2,2,-2,2,0,0,0,0,0,0,0,0,0},-0.1,0.3},
{0,{2,-2,2,0,2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{2,0,0,2,2,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{2,0,2,-1,1,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{3,-1,2,0,1,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{3,0,2,-1,2,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{3,1,2,0,1,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{4,0,0,0,-1,0,0,0,0,0,0,0,0,0},0,0.4},
{0,{4,0,0,0,0,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{5,0,2,-2,2,0,0,0,0,0,0,0,0,0},0,-0.4},
{0,{0,0,1,-1,2,0,0,-1,0,-2,5,0,0,0},0.21,0.1},
{0,{0,0,0,0,0,0,0,2,-6,0,0,0,0,-2},0.2,0.1},
{0,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-1},0.2,-0.1},
{0,{0,0,0,0,0,0,0,5,-8,0,0,0,0,-2},-0.1,-0.2},
{0,{0,0,0,0,0,0,0,6,-10,0,0,0,0,-2},-0.2,-0.1},
{0,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-2},0.2,-0.1},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-2},0.2,0.1},
{0,{0,0,0,0,0,0,2,-3,0,0,0,0,0,1},-0.1,-0.2},
{0,{0,0,0,0,1,0,0,-9,17,0,0,0,0,0},-0.2,0.1},
{0,{0,0,0,0,1,0,0,1,0,-2,0,0,0,0},-0.2,-0.1},
{0,{0,0,1,-1,-1,0,0,-1,0,-1,0,0,0,0},0.2,0.1},
{0,{0,0,2,-2,1,0,0,-7,9,0,0,0,0,0},0.2,-0.1},
{0,{1,0,-2,0,-2,0,-10,3,0,0,0,0,0,0},-0.1,0.2},
{0,{1,0,0,-1,1,0,0,-3,4,0,0,0,0,0},0.1,-0.2},
{0,{2,0,-1,-1,1,0,0,3,-7,0,0,0,0,0},-0.1,-0.2},
{0,{2,0,0,-2,-1,0,0,-6,8,0,0,0,0,0},-0.2,0.1},
{0,{2,0,2,0,1,0,0,1,0,0,0,0,0,0},-0.1,-0.2},
{0,{0,0,0,0,0,0,0,0,0,0,0,0,2,2},0,0.3},
{0,{0,0,0,0,0,0,0,0,0,0,0,2,0,1},0.3,0},
{0,{0,0,0,0,0,0,0,0,0,0,0,2,0,2},0,0.3},
{0,{0,0,0,0,0,0,0,0,0,0,5,0,0,2},0,0.3},
{0,{0,0,0,0,0,0,0,0,0,4,-5,0,0,2},0,-0.3},
{0,{0,0,0,0,0,0,0,1,-6,0,0,0,0,-2},0.3,0},
{0,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-1},0.3,0},
{0,{0,0,0,0,0,0,0,1,0,-1,0,0,0,1},0.3,0},
{0,{0,0,0,0,0,0,0,3,0,0,-2,0,0,2},-0.3,0},
{0,{0,0,0,0,0,0,0,4,-8,1,5,0,0,-2},0.3,0},
{0,{0,0,0,0,0,0,0,4,0,0,-2,0,0,2},0,0.3},
{0,{0,0,0,0,0,0,0,6,-7,0,0,0,0,2},-0.3,0},
{0,{0,0,0,0,0,0,0,6,0,0,0,0,0,1},0.3,0},
{0,{0,0,0,0,0,0,5,-3,0,0,0,0,0,1},-0.3,0},
{0,{0,0,0,0,0,0,8,-16,0,0,0,0,0,-2},0,0.3},
{0,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-1},-0.3,0},
{0,{0,0,0,0,1,0,0,0,0,0,-1,0,0,0},0.3,0},
{0,{0,0,0,0,1,0,2,-2,0,0,0,0,0,0},0,-0.3},
{0,{0,0,0,0,1,0,5,-8,0,0,0,0,0,0},0.3,0},
{0,{0,0,0,0,2,0,0,-4,8,-3,0,0,0,0},-0.3,0},
{0,{0,0,0,0,2,0,0,4,-8,3,0,0,0,0},-0.3,0},
{0,{0,0,0,1,-2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,0,0,4,2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,0,1,-1,1,0,-2,1,0,0,0,0,0,0},0.3,0},
{0,{0,0,1,-1,1,0,1,-2,0,0,0,0,0,0},0.3,0},
{0,{0,0,1,-1,2,0,0,-1,0,1,0,0,0,0},0.3,0},
{0,{0,0,1,-1,2,0,0,0,-2,0,0,0,0,0},0,0.3},
{0,{0,0,2,-2,-1,0,-5,6,0,0,0,0,0,0},-0.3,0},
{0,{0,0,2,-2,1,0,0,-1,0,1,0,0,0,0},0,-0.3},
{0,{0,0,2,0,-2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{0,0,2,0,2,0,-1,1,0,0,0,0,0,0},0,0.3},
{0,{0,0,2,0,2,0,0,-1,0,1,0,0,0,0},0,-0.3},
{0,{0,0,2,0,2,0,0,1,0,-1,0,0,0,0},0,0.3},
{0,{0,0,2,3,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{0,1,0,-4,1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,1,0,-2,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{0,1,2,3,2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,1,4,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{0,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,2,2,2,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,-2,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,-2,0,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,-2,0,0,-1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{1,-2,2,0,1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{1,-1,0,-4,-1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,0,-2,-2,-2,0,-3,3,0,0,0,0,0,0},0,-0.3},
{0,{1,0,-1,-1,-1,0,20,-20,0,0,0,0,0,0},0,-0.3},
{0,{1,0,-1,1,-1,0,-18,17,0,0,0,0,0,0},0.3,0},
{0,{1,0,0,-6,-1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{1,0,0,-1,-1,0,0,-2,2,0,0,0,0,0},0,-0.3},
{0,{1,0,0,4,-1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{1,0,1,-1,1,0,0,-1,0,0,0,0,0,0},0.3,0},
{0,{1,0,2,-2,2,0,0,-2,0,2,0,0,0,0},0,0.3},
{0,{1,0,2,3,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,1,2,-4,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{1,1,4,-2,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,-2,0,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{2,-1,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,-1,2,-1,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,0,-4,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,0,-4,2,-2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{2,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{2,0,-1,-1,-1,0,0,-1,0,0,0,0,0,0},0.3,0},
{0,{2,0,-1,-1,-1,0,0,-1,0,2,0,0,0,0},0.3,0},
{0,{2,0,0,-3,-1,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{2,0,0,-2,-2,0,-3,3,0,0,0,0,0,0},0,-0.3},
{0,{2,0,0,-2,-1,0,-3,3,0,0,0,0,0,0},0,0.3},
{0,{2,0,0,-2,-1,0,0,-2,0,4,-5,0,0,0},0,0.3},
{0,{2,0,2,1,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,0,4,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,1,-2,0,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,1,2,-4,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{2,1,2,1,2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{2,2,2,-2,2,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{3,0,0,-2,1,0,0,0,0,0,0,0,0,0},0,-0.3},
{0,{4,0,2,-4,2,0,0,0,0,0,0,0,0,0},0,0.3},
{0,{0,1,2,-2,3,0,0,0,0,0,0,0,0,0},0,-0.21},
{0,{0,0,0,0,0,0,0,1,0,-5,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,0,1,0,-2,0,0,0,-2},0,0.2},
{0,{0,0,0,0,0,0,0,1,0,-2,5,0,0,2},0.2,0},
{0,{0,0,0,0,0,0,0,1,0,-1,0,0,0,-1},0.2,0},
{0,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,0,1,0,1,0,0,0,1},0.2,0},
{0,{0,0,0,0,0,0,0,2,-7,0,0,0,0,-2},0.2,0},
{0,{0,0,0,0,0,0,0,2,-4,0,0,0,0,1},0,-0.2},
{0,{0,0,0,0,0,0,0,2,0,-5,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,0,2,0,0,-2,0,0,1},0.2,0},
{0,{0,0,0,0,0,0,0,2,1,0,0,0,0,2},0.1,-0.1},
{0,{0,0,0,0,0,0,0,3,-8,3,0,0,0,-2},0,0.2},
{0,{0,0,0,0,0,0,0,3,0,0,0,0,0,2},0.2,0},
{0,{0,0,0,0,0,0,0,4,-8,1,5,0,0,2},0.2,0},
{0,{0,0,0,0,0,0,0,4,-8,3,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,0,4,-8,3,0,0,0,1},0,-0.2},
{0,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-1},0,-0.2},
{0,{0,0,0,0,0,0,0,4,-6,0,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,0,4,0,-4,0,0,0,2},0,0.2},
{0,{0,0,0,0,0,0,0,5,-10,0,0,0,0,-2},0.2,0},
{0,{0,0,0,0,0,0,0,5,-6,0,0,0,0,2},-0.2,0},
{0,{0,0,0,0,0,0,0,7,-9,0,0,0,0,2},-0.2,0},
{0,{0,0,0,0,0,0,0,7,-8,0,0,0,0,2},-0.2,0},
{0,{0,0,0,0,0,0,0,7,-7,0,0,0,0,2},-0.2,0},
{0,{0,0,0,0,0,0,0,9,-17,0,0,0,0,-2},0,-0.2},
{0,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-1},0,0.2},
{0,{0,0,0,0,0,0,3,-8,0,0,0,0,0,-2},-0.2,0},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-2},0.2,0},
{0,{0,0,0,0,0,0,3,-4,0,0,0,0,0,1},0,-0.2},
{0,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-2},0.2,0},
{0,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-1},0,-0.2},
{0,{0,0,0,0,0,0,4,-2,0,0,0,0,0,0},-0.2,0},
{0,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-1},0,-0.2},
{0,{0,0,0,0,0,0,5,-5,0,0,0,0,0,1},-0.2,0},
{0,{0,0,0,0,0,0,6,-6,0,0,0,0,0,1},-0.2,0},
{0,{0,0,0,0,0,0,6,-4,0,0,0,0,0,1},-0.2,0},
{0,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-1},0.2,0},
{0,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-1},0,-0.2},
{0,{0,0,0,0,0,0,8,-12,0,0,0,0,0,-2},0,0.2},
{0,{0,0,0,0,1,0,-3,4,0,0,0,0,0,0},0.2,0},
{0,{0,0,0,0,1,0,-2,2,0,0,0,0,0,0},0,-0.2},
{0,{0,0,0,0,1,0,0,-2,2,0,0,0,0,0},0,-0.2},
{0,{0,0,0,0,1,0,0,2,-2,0,0,0,0,0},0,-0.2},
{0,{0,0,0,0,1,0,0,2,0,-2,0,0,0,0},0,0.2},
{0,{0,0,0,0,1,0,0,7,-13,0,0,0,0,0},0,0.2},
{0,{0,0,0,0,1,0,3,-4,0,0,0,0,0,0},-0.2,0},
{0,{0,0,1,-1,1,0,-5,6,0,0,0,0,0,0},0.2,0},
{0,{0,0,1,-1,1,0,0,-4,6,0,0,0,0,0},0,-0.2},
{0,{0,0,1,-1,1,0,0,-1,0,0,0,-1,0,0},0.2,0},
{0,{0,0,1,-1,1,0,0,-1,0,1,-3,0,0,0},0.2,0},
{0,{0,0,1,-1,1,0,0,1,-4,0,0,0,0,0},0,-0.2},
{0,{0,0,1,-1,1,0,1,-3,0,0,0,0,0,0},0,0.2},
{0,{0,0,1,-1,2,0,-8,12,0,0,0,0,0,0},0,0.2},
{0,{0,0,1,-1,2,0,-5,7,0,0,0,0,0,0},0,0.2},
{0,{0,0,1,-1,2,0,0,-1,0,-1,0,0,0,0},-0.2,0},
{0,{0,0,1,-1,2,0,0,-1,0,0,1,0,0,0},0,0.2},
{0,{0,0,1,1,2,0,0,1,0,0,0,0,0,0},-0.2,0},
{0,{0,0,2,-2,1,0,-8,11,0,0,0,0,0,0},0.2,0},
{0,{0,0,2,-2,1,0,-5,5,0,0,0,0,0,0},0,-0.2},
{0,{0,0,2,-2,1,0,0,-4,4,0,0,0,0,0},0,-0.2},
{0,{0,0,2,-2,1,0,0,-4,8,-3,0,0,0,0},0.2,0},
{0,{0,0,2,-2,1,0,0,-3,0,3,0,0,0,0},0,-0.2},
{0,{0,0,2,-2,1,0,0,-2,0,0,0,0,0,0},0,0.2},
{0,{0,0,2,-2,1,0,0,1,0,-1,0,0,0,0},0,0.2},
{0,{0,0,2,-2,1,0,0,4,-8,3,0,0,0,0},0.2,0},
{0,{0,0,2,-2,2,0,0,-2,0,2,0,0,0,0},0,0.2},
{0,{0,0,4,2,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,1,-2,4,-1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,1,0,-4,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,1,0,4,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,1,2,-4,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,2,0,0,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,3,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{0,3,0,0,0,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-2,-2,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-2,0,-2,0,0,0,0,0,0,0,0,0,0},0.1,-0.1},
{0,{1,-2,2,2,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-1,-4,2,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-1,-2,-4,-1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,-1,-2,1,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-1,0,0,-2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,-1,0,4,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,-1,2,-3,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,-1,2,1,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,-1,2,4,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,-4,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,-2,-2,-2,0,0,-2,0,3,0,0,0,0},0,0.2},
{0,{1,0,-2,0,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,-2,1,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,-1,-2,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{1,0,-1,0,-1,0,-3,5,0,0,0,0,0,0},0,0.2},
{0,{1,0,-1,1,-1,0,0,1,0,0,0,0,0,0},0.2,0},
{0,{1,0,0,-3,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,0,-3,0,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},0,0.2},
{0,{1,0,0,-2,1,0,0,-2,0,2,0,0,0,0},0,-0.2},
{0,{1,0,0,-1,-1,0,0,-3,4,0,0,0,0,0},0,0.2},
{0,{1,0,0,-1,1,0,0,-1,0,1,0,0,0,0},0,-0.2},
{0,{1,0,1,1,1,0,0,1,0,0,0,0,0,0},0.2,0},
{0,{1,0,2,-6,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,2,-4,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,0,3,0,3,0,0,0,0,0,0,0,0,0},-0.2,0},
{0,{1,0,4,0,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,1,-2,-6,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,1,-2,-3,-2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,1,-2,2,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,1,0,1,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,1,0,1,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,1,2,4,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,2,0,-2,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{1,2,0,0,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{1,2,2,0,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,-2,0,-2,-2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,-2,2,2,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,-1,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,-1,-2,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,-1,0,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,-1,0,2,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,-4,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,-2,-2,0,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,-2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,0,-1,-1,-2,0,0,-1,0,2,0,0,0,0},0.2,0},
{0,{2,0,0,-6,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,0,-3,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,0,0,-2,-1,0,0,-2,0,3,-1,0,0,0},0,-0.2},
{0,{2,0,0,-2,1,0,0,-5,6,0,0,0,0,0},0,-0.2},
{0,{2,0,0,-1,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,0,0,4,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,2,-6,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,2,-4,0,0,0,0,0,0,0,0,0,0},0.2,0},
{0,{2,0,2,-3,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,0,2,-2,0,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,2,4,1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,0,4,-4,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,1,-2,-6,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{2,1,-2,0,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,1,0,-4,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,1,0,-2,-2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,1,0,2,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,1,2,2,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{2,2,-2,-4,-2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{3,0,-2,-6,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{3,0,-2,-1,-1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{3,0,-2,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{3,0,0,0,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{3,0,0,2,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{3,0,0,2,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{3,0,2,0,0,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{3,0,2,1,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{3,0,4,-2,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{3,1,2,-2,1,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{4,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{4,-1,2,0,2,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{4,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0,0.2},
{0,{4,1,2,0,2,0,0,0,0,0,0,0,0,0},0,-0.2},
{0,{0,1,2,-2,0,0,0,0,0,0,0,0,0,0},0,-0.19},
{0,{0,1,-2,2,-3,0,0,0,0,0,0,0,0,0},0,0.17},
{0,{1,0,-2,0,-3,0,0,0,0,0,0,0,0,0},0,0.11},
{0,{0,0,0,0,1,0,0,-1,0,2,0,0,0,0},0.1,0},
{0,{0,0,0,0,2,0,0,0,0,1,0,0,0,0},-0.1,0},
{0,{0,0,0,3,2,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{0,0,2,0,2,0,-2,2,0,0,0,0,0,0},0,-0.1},
{0,{0,0,2,0,2,0,-2,3,0,0,0,0,0,0},0.1,0},
{0,{0,0,2,0,2,0,2,-3,0,0,0,0,0,0},0.1,0},
{0,{0,0,2,0,2,0,2,-2,0,0,0,0,0,0},0,0.1},
{0,{0,1,-2,-2,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{0,1,4,-4,2,0,0,0,0,0,0,0,0,0},0,0.1},
{0,{0,2,0,0,-2,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{1,0,-2,-4,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{1,0,0,-6,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{1,0,0,0,-1,0,-10,3,0,0,0,0,0,0},0,0.1},
{0,{1,0,0,0,1,0,-10,3,0,0,0,0,0,0},0,-0.1},
{0,{1,1,-2,-2,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{1,2,2,-4,1,0,0,0,0,0,0,0,0,0},0,0.1},
{0,{2,-1,-2,0,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{2,-1,-2,0,1,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{2,-1,0,2,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{2,0,-2,-2,-2,0,0,-2,0,2,0,0,0,0},0,0.1},
{0,{2,0,0,-6,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{2,2,0,-2,-1,0,0,0,0,0,0,0,0,0},0,0.1},
{0,{3,-1,0,0,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{0,{3,0,0,-4,0,0,0,0,0,0,0,0,0,0},0,-0.1},
{1,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},153041.79,853.32},
{1,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},11714.49,-290.91},
{1,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},2024.68,-51.26},
{1,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-1837.32,48},
{1,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},-1312.21,-28.93},
{1,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},-632.54,0.78},
{1,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},459.68,-67.3},
{1,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},344.5,1.41},
{1,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},268.14,-7.06},
{1,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},192.06,29.83},
{1,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},139.64,0.15},
{1,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},-113.94,-1.04},
{1,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},109.81,3.2},
{1,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},-56.37,0.13},
{1,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},-56.17,-0.01},
{1,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-53.05,-1.24},
{1,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},-51.6,0.16},
{1,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},45.91,-0.12},
{1,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},-42.45,0.02},
{1,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},40.82,-1.02},
{1,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},34.3,-1.25},
{1,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},28.89,0},
{1,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},27.61,-1.22},
{1,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},-25.43,1},
{1,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},-26.01,0.07},
{1,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},-23.02,0.06},
{1,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},19.37,-0.01},
{1,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},14.05,-4.19},
{1,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},18.18,-0.01},
{1,{0,2,0,0,0,0,0,0,0,0,0,0,0,0},-14.86,-0.09},
{1,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},13.49,-0.01},
{1,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},12.44,-0.27},
{1,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},11.46,0.03},
{1,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},-11.33,-0.06},
{1,{2,0,-2,0,0,0,0,0,0,0,0,0,0,0},-9.81,0.01},
{1,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},-9.08,-0.02},
{1,{0,0,1,-1,1,0,0,-1,0,-2,5,0,0,0},2.74,-4.56},
{1,{1,0,2,2,2,0,0,0,0,0,0,0,0,0},6.84,-0.04},
{1,{0,1,2,0,2,0,0,0,0,0,0,0,0,0},-6.73,0.01},
{1,{1,1,0,-2,0,0,0,0,0,0,0,0,0,0},6.54,0.01},
{1,{0,1,-2,0,-2,0,0,0,0,0,0,0,0,0},-6.35,-0.01},
{1,{0,0,2,2,1,0,0,0,0,0,0,0,0,0},5.9,-0.02},
{1,{1,0,0,2,0,0,0,0,0,0,0,0,0,0},-5.85,0.02},
{1,{2,0,2,-2,2,0,0,0,0,0,0,0,0,0},-5.73,0.01},
{1,{0,0,0,2,1,0,0,0,0,0,0,0,0,0},5.6,0},
{1,{1,0,2,-2,1,0,0,0,0,0,0,0,0,0},-5.16,0},
{1,{2,0,0,-2,-1,0,0,0,0,0,0,0,0,0},-5.14,0.01},
{1,{2,0,2,0,1,0,0,0,0,0,0,0,0,0},4.76,-0.02},
{1,{0,0,0,2,-1,0,0,0,0,0,0,0,0,0},-4.4,0.02},
{1,{0,1,-2,2,-1,0,0,0,0,0,0,0,0,0},-4.22,0},
{1,{1,-1,0,0,0,0,0,0,0,0,0,0,0,0},-4.2,0.01},
{1,{1,0,0,-1,0,0,0,0,0,0,0,0,0,0},3.58,0.31},
{1,{0,1,0,-2,0,0,0,0,0,0,0,0,0,0},3.87,0.01},
{1,{0,0,0,1,0,0,0,0,0,0,0,0,0,0},3.76,0},
{1,{2,0,0,-2,1,0,0,0,0,0,0,0,0,0},-3.62,0},
{1,{1,0,-2,0,0,0,0,0,0,0,0,0,0,0},-3.61,0},
{1,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1},-1.28,-2.14},
{1,{0,1,2,-2,1,0,0,0,0,0,0,0,0,0},-3.18,0},
{1,{1,1,0,0,0,0,0,0,0,0,0,0,0,0},3.01,0},
{1,{1,0,2,0,0,0,0,0,0,0,0,0,0,0},-2.97,0.01},
{1,{1,-1,0,-1,0,0,0,0,0,0,0,0,0,0},2.91,0},
{1,{2,0,-2,0,-2,0,0,0,0,0,0,0,0,0},-2.73,0},
{1,{3,0,2,0,2,0,0,0,0,0,0,0,0,0},2.58,-0.01},
{1,{1,-1,2,0,2,0,0,0,0,0,0,0,0,0},2.56,-0.01},
{1,{1,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-2.51,-0.01},
{1,{0,1,-2,-2,-2,0,0,0,0,0,0,0,0,0},-2.35,-0.01},
{1,{1,1,2,0,2,0,0,0,0,0,0,0,0,0},-2.21,0.01},
{1,{2,0,0,0,-1,0,0,0,0,0,0,0,0,0},-2.04,0.01},
{1,{2,0,0,0,1,0,0,0,0,0,0,0,0,0},-1.94,0},
{1,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2},-1.84,0},
{1,{0,0,0,0,0,0,0,4,-8,3,0,0,0,0},0.41,-1.43},
{1,{1,0,-2,2,-1,0,0,0,0,0,0,0,0,0},-1.77,0.01},
{1,{0,1,-1,1,-1,0,0,0,0,0,0,0,0,0},0,1.77},
{1,{1,0,0,0,2,0,0,0,0,0,0,0,0,0},1.76,0},
{1,{0,0,1,-1,1,0,-8,12,0,0,0,0,0,0},-1.07,-0.53},
{1,{0,0,2,1,2,0,0,0,0,0,0,0,0,0},-1.48,0},
{1,{3,0,0,0,0,0,0,0,0,0,0,0,0,0},-1.4,0.01},
{1,{1,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-1.35,-0.01},
{1,{0,0,0,0,0,0,1,-1,0,0,0,0,0,0},-1.32,0},
{1,{0,0,0,0,0,0,0,8,-16,4,5,0,0,0},-1.28,0},
{1,{1,0,0,0,-2,0,0,0,0,0,0,0,0,0},1.24,0},
{1,{2,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},1.23,0},
{1,{1,0,0,-4,0,0,0,0,0,0,0,0,0,0},1.19,0},
{1,{1,0,2,2,1,0,0,0,0,0,0,0,0,0},1.18,-0.01},
{1,{1,-1,0,-1,-1,0,0,0,0,0,0,0,0,0},1.17,0},
{1,{1,1,2,-2,2,0,0,0,0,0,0,0,0,0},-1.15,0},
{1,{0,2,-2,2,-1,0,0,0,0,0,0,0,0,0},-1.14,0},
{1,{2,0,0,-4,0,0,0,0,0,0,0,0,0,0},1.14,0},
{1,{0,0,0,0,0,0,0,1,0,-1,0,0,0,0},1.09,0.03},
{1,{2,0,-2,-4,-2,0,0,0,0,0,0,0,0,0},-1.08,0},
{1,{0,0,0,0,0,0,0,0,0,2,0,0,0,2},1.04,0},
{1,{1,0,-4,0,-2,0,0,0,0,0,0,0,0,0},1.02,0},
{1,{2,0,2,2,2,0,0,0,0,0,0,0,0,0},0.98,-0.01},
{1,{1,0,-1,0,-1,0,0,0,0,0,0,0,0,0},0,0.93},
{1,{1,0,0,-1,-1,0,0,0,0,0,0,0,0,0},0.91,0.02},
{1,{2,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.91,0},
{1,{2,1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.9,0},
{1,{1,0,0,2,1,0,0,0,0,0,0,0,0,0},0.86,0},
{1,{1,-1,0,-2,0,0,0,0,0,0,0,0,0,0},-0.84,0},
{1,{3,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.83,0},
{1,{0,0,4,-2,2,0,0,0,0,0,0,0,0,0},-0.82,0},
{1,{0,0,0,0,1,0,0,-1,2,0,0,0,0,0},0.41,0.39},
{1,{0,0,0,0,0,0,0,1,-2,0,0,0,0,0},0.4,-0.38},
{1,{0,1,-2,2,0,0,0,0,0,0,0,0,0,0},0.78,0},
{1,{0,0,2,-2,-1,0,0,0,0,0,0,0,0,0},0.74,0},
{1,{0,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.73,0},
{1,{1,0,2,-2,0,0,0,0,0,0,0,0,0,0},0.68,0},
{1,{1,1,0,-2,-1,0,0,0,0,0,0,0,0,0},0.66,0},
{1,{2,0,-2,0,1,0,0,0,0,0,0,0,0,0},-0.64,0},
{1,{0,0,2,-1,2,0,0,0,0,0,0,0,0,0},0.63,0},
{1,{0,1,0,0,2,0,0,0,0,0,0,0,0,0},-0.63,0},
{1,{0,0,2,4,2,0,0,0,0,0,0,0,0,0},0.62,0},
{1,{0,1,0,2,0,0,0,0,0,0,0,0,0,0},0.6,0},
{1,{0,0,2,0,-1,0,0,0,0,0,0,0,0,0},-0.59,0},
{1,{0,1,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.59,0},
{1,{0,1,2,-2,0,0,0,0,0,0,0,0,0,0},0.59,0},
{1,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1},0.38,-0.19},
{1,{1,0,-2,-2,0,0,0,0,0,0,0,0,0,0},0.57,0},
{1,{0,0,0,0,0,0,2,-3,0,0,0,0,0,0},-0.01,-0.55},
{1,{0,0,0,0,0,0,0,0,0,2,-5,0,0,0},0.44,-0.11},
{1,{0,0,0,0,0,0,2,-2,0,0,0,0,0,0},0.53,0},
{1,{0,1,0,0,-2,0,0,0,0,0,0,0,0,0},0.53,0},
{1,{1,-1,0,-1,-2,0,0,0,0,0,0,0,0,0},-0.53,0},
{1,{1,-1,2,2,2,0,0,0,0,0,0,0,0,0},0.52,0},
{1,{1,1,0,-2,1,0,0,0,0,0,0,0,0,0},0.52,0},
{1,{2,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.52,0},
{1,{0,0,0,0,0,0,8,-13,0,0,0,0,0,0},-0.21,-0.3},
{1,{1,-1,-2,-2,-2,0,0,0,0,0,0,0,0,0},0.51,0},
{1,{1,0,-2,2,0,0,0,0,0,0,0,0,0,0},0.51,0},
{1,{0,1,0,1,0,0,0,0,0,0,0,0,0,0},-0.5,0},
{1,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2},-0.11,0.37},
{1,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2},-0.11,0.37},
{1,{0,1,2,2,2,0,0,0,0,0,0,0,0,0},-0.48,0},
{1,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2},-0.46,-0.01},
{1,{1,-1,0,0,1,0,0,0,0,0,0,0,0,0},-0.47,0},
{1,{0,0,1,-1,1,0,0,-1,0,2,-5,0,0,0},-0.03,0.43},
{1,{3,0,2,0,1,0,0,0,0,0,0,0,0,0},0.45,0},
{1,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2},0.44,0},
{1,{0,0,0,4,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{1,{1,-1,0,2,0,0,0,0,0,0,0,0,0,0},-0.44,0},
{1,{1,0,0,2,-1,0,0,0,0,0,0,0,0,0},-0.44,0},
{1,{2,-1,2,0,2,0,0,0,0,0,0,0,0,0},0.43,0},
{1,{0,0,0,2,2,0,0,0,0,0,0,0,0,0},0.42,0},
{1,{1,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.42,0},
{1,{0,0,2,-2,1,0,-5,6,0,0,0,0,0,0},0.02,0.39},
{1,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2},-0.41,0},
{1,{1,-1,-2,0,-2,0,0,0,0,0,0,0,0,0},0.41,0},
{1,{0,1,-2,-2,-1,0,0,0,0,0,0,0,0,0},-0.4,0},
{1,{1,0,2,-4,1,0,0,0,0,0,0,0,0,0},0.4,0},
{1,{0,0,0,0,0,0,0,1,0,-2,0,0,0,0},0.15,-0.24},
{1,{0,3,2,-2,2,0,0,0,0,0,0,0,0,0},0.39,0},
{1,{2,0,0,-2,0,0,0,-2,0,2,0,0,0,0},-0.39,0},
{1,{0,0,0,0,0,0,0,2,0,-2,0,0,0,0},-0.37,-0.01},
{1,{0,0,2,2,0,0,0,0,0,0,0,0,0,0},-0.37,0},
{1,{1,-1,2,0,1,0,0,0,0,0,0,0,0,0},0.37,0},
{1,{2,0,0,-2,0,0,0,-2,0,3,0,0,0,0},-0.31,0.06},
{1,{2,1,2,0,2,0,0,0,0,0,0,0,0,0},-0.37,0},
{1,{0,0,0,1,1,0,0,0,0,0,0,0,0,0},0.35,0},
{1,{1,0,0,-2,-2,0,0,0,0,0,0,0,0,0},-0.35,0},
{1,{0,0,0,0,0,0,2,0,0,0,0,0,0,2},-0.33,0.01},
{1,{0,0,0,0,1,0,0,-4,8,-3,0,0,0,0},-0.07,-0.27},
{1,{0,0,0,0,0,0,0,2,-2,0,0,0,0,0},0.33,0},
{1,{0,0,0,0,1,0,0,4,-8,3,0,0,0,0},0.07,-0.26},
{1,{2,-1,0,0,0,0,0,0,0,0,0,0,0,0},-0.33,0},
{1,{1,0,-2,2,-2,0,0,0,0,0,0,0,0,0},0.32,0},
{1,{1,0,-1,0,-2,0,0,0,0,0,0,0,0,0},0,-0.32},
{1,{1,1,0,0,1,0,0,0,0,0,0,0,0,0},0.32,0},
{1,{1,1,2,0,1,0,0,0,0,0,0,0,0,0},-0.32,0},
{1,{0,0,1,-1,0,0,0,0,-2,0,0,0,0,0},0.24,0.07},
{1,{0,0,1,-1,1,0,0,0,-2,0,0,0,0,0},-0.24,-0.07},
{1,{0,0,0,0,0,0,0,0,0,1,0,0,0,0},0.08,-0.22},
{1,{0,0,0,0,0,0,1,1,0,0,0,0,0,2},0.3,0},
{1,{0,1,0,-2,1,0,0,0,0,0,0,0,0,0},0.3,0},
{1,{1,0,2,-1,2,0,0,0,0,0,0,0,0,0},0.3,0},
{1,{1,0,2,1,2,0,0,0,0,0,0,0,0,0},-0.3,0},
{1,{2,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.3,0},
{1,{1,0,0,0,0,0,-18,16,0,0,0,0,0,0},0.2,-0.09},
{1,{0,0,0,0,0,0,0,0,0,2,0,0,0,1},-0.05,-0.24},
{1,{0,0,0,0,0,0,3,-4,0,0,0,0,0,0},0,-0.29},
{1,{0,0,0,1,-1,0,0,0,0,0,0,0,0,0},0.29,0},
{1,{1,0,-1,0,0,0,0,0,0,0,0,0,0,0},0,-0.29},
{1,{1,0,0,1,0,0,0,0,0,0,0,0,0,0},0.29,0},
{1,{1,-1,0,0,-1,0,0,0,0,0,0,0,0,0},-0.27,0},
{1,{1,0,0,-2,2,0,0,0,0,0,0,0,0,0},-0.27,0},
{1,{1,0,0,0,0,0,-10,3,0,0,0,0,0,0},-0.19,-0.08},
{1,{0,0,2,1,1,0,0,0,0,0,0,0,0,0},-0.25,0},
{1,{0,3,0,0,0,0,0,0,0,0,0,0,0,0},-0.25,0},
{1,{1,2,0,-2,0,0,0,0,0,0,0,0,0,0},0.25,0},
{1,{2,0,0,-2,-1,0,0,-2,0,2,0,0,0,0},0.25,0},
{1,{2,1,0,0,0,0,0,0,0,0,0,0,0,0},0.25,0},
{1,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2},-0.01,0.23},
{1,{0,0,0,0,0,0,0,1,0,1,0,0,0,2},0.23,0},
{1,{1,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},-0.23,0},
{1,{1,0,-2,0,1,0,0,0,0,0,0,0,0,0},-0.23,0},
{1,{4,0,2,0,2,0,0,0,0,0,0,0,0,0},0.23,0},
{1,{0,0,0,0,0,0,0,2,-4,0,0,0,0,0},0.08,-0.14},
{1,{0,0,1,-1,1,0,0,-1,0,0,-1,0,0,0},-0.15,-0.07},
{1,{0,0,2,-2,0,0,-5,6,0,0,0,0,0,0},-0.01,-0.21},
{1,{0,1,2,1,2,0,0,0,0,0,0,0,0,0},0.22,0},
{1,{1,0,4,-2,2,0,0,0,0,0,0,0,0,0},-0.22,0},
{1,{1,1,2,-2,1,0,0,0,0,0,0,0,0,0},-0.22,0},
{1,{2,1,2,-2,2,0,0,0,0,0,0,0,0,0},-0.22,0},
{1,{0,0,1,-1,1,0,0,-1,0,-1,0,0,0,0},0.04,-0.17},
{1,{2,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0.21,0},
{1,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1},-0.01,0.19},
{1,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2},-0.04,-0.16},
{1,{1,0,-2,1,-1,0,0,0,0,0,0,0,0,0},-0.2,0},
{1,{2,-2,0,-2,0,0,0,0,0,0,0,0,0,0},-0.2,0},
{1,{0,2,0,-2,0,0,0,0,0,0,0,0,0,0},0.19,0},
{1,{1,1,0,0,-1,0,0,0,0,0,0,0,0,0},0.19,0},
{1,{2,0,-2,-4,-1,0,0,0,0,0,0,0,0,0},-0.19,0},
{1,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2},0.18,0},
{1,{0,1,0,2,1,0,0,0,0,0,0,0,0,0},-0.18,0},
{1,{1,0,-4,0,-1,0,0,0,0,0,0,0,0,0},0.18,0},
{1,{1,0,2,0,2,0,0,1,0,0,0,0,0,0},-0.12,0.06},
{1,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2},0.14,0.03},
{1,{0,0,0,0,0,0,3,-5,0,0,0,0,0,0},0.13,-0.04},
{1,{0,0,2,-3,2,0,0,0,0,0,0,0,0,0},0.17,0},
{1,{0,0,4,0,2,0,0,0,0,0,0,0,0,0},-0.17,0},
{1,{1,0,0,-4,-1,0,0,0,0,0,0,0,0,0},-0.17,0},
{1,{2,0,2,2,1,0,0,0,0,0,0,0,0,0},0.17,0},
{1,{1,0,-2,0,-2,0,0,4,-8,3,0,0,0,0},-0.11,0.06},
{1,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2},0.16,0},
{1,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2},-0.06,0.1},
{1,{1,0,0,-1,1,0,0,0,0,0,0,0,0,0},-0.14,0.02},
{1,{2,0,0,-2,-2,0,0,0,0,0,0,0,0,0},0.16,0},
{1,{0,0,0,0,0,0,0,0,0,0,2,0,0,1},-0.05,-0.1},
{1,{0,0,0,0,0,0,0,2,0,1,0,0,0,2},-0.14,0.01},
{1,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2},0.05,0.1},
{1,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2},-0.11,0.04},
{1,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2},0,0.15},
{1,{0,0,1,-1,1,0,0,-1,0,2,0,0,0,0},0.02,0.13},
{1,{1,1,-2,-4,-2,0,0,0,0,0,0,0,0,0},-0.15,0},
{1,{0,0,0,0,0,0,0,1,2,0,0,0,0,2},0.08,0.06},
{1,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2},-0.06,0.08},
{1,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2},0.05,0.09},
{1,{0,0,0,4,1,0,0,0,0,0,0,0,0,0},0.14,0},
{1,{0,0,1,-1,1,0,0,-1,0,0,2,0,0,0},0.04,0.1},
{1,{0,0,1,0,1,0,0,0,0,0,0,0,0,0},0,0.14},
{1,{0,0,2,-4,1,0,0,0,0,0,0,0,0,0},0.14,0},
{1,{0,1,0,-2,-1,0,0,0,0,0,0,0,0,0},-0.14,0},
{1,{1,0,0,-2,0,0,19,-21,3,0,0,0,0,0},-0.09,0.05},
{1,{1,0,2,4,2,0,0,0,0,0,0,0,0,0},0.14,0},
{1,{1,1,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.14,0},
{1,{3,0,0,-4,0,0,0,0,0,0,0,0,0,0},0.14,0},
{1,{0,0,1,-1,1,0,-5,7,0,0,0,0,0,0},-0.12,-0.02},
{1,{0,0,0,0,0,0,0,0,0,3,0,0,0,2},0.11,-0.02},
{1,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2},-0.07,0.06},
{1,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2},-0.13,0},
{1,{0,0,4,-2,1,0,0,0,0,0,0,0,0,0},-0.13,0},
{1,{1,1,0,-4,0,0,0,0,0,0,0,0,0,0},0.13,0},
{1,{1,1,2,2,2,0,0,0,0,0,0,0,0,0},-0.13,0},
{1,{3,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.13,0},
{1,{0,0,0,0,0,0,0,0,0,0,2,0,0,2},0.12,0},
{1,{1,0,0,-1,0,0,-3,4,0,0,0,0,0,0},0,-0.12},
{1,{2,0,0,-2,0,0,-3,3,0,0,0,0,0,0},-0.12,0},
{1,{2,1,0,-2,-1,0,0,0,0,0,0,0,0,0},-0.12,0},
{1,{3,0,2,2,2,0,0,0,0,0,0,0,0,0},0.12,0},
{1,{0,0,0,0,0,0,0,3,-4,0,0,0,0,0},0.07,-0.04},
{1,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1},0.02,-0.09},
{1,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1},-0.02,-0.09},
{1,{0,0,0,2,-2,0,0,0,0,0,0,0,0,0},0.11,0},
{1,{0,0,2,4,1,0,0,0,0,0,0,0,0,0},0.11,0},
{1,{0,2,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.11,0},
{1,{2,0,0,-4,-1,0,0,0,0,0,0,0,0,0},0.11,0},
{1,{3,0,0,0,-1,0,0,0,0,0,0,0,0,0},-0.11,0},
{1,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2},0.1,0},
{1,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2},0.1,0},
{1,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2},0,0.1},
{1,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2},0,0.1},
{1,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2},0.1,0},
{1,{0,0,1,-1,1,0,0,3,-8,3,0,0,0,0},0.1,0},
{1,{0,0,2,-2,1,0,-3,3,0,0,0,0,0,0},-0.1,0},
{1,{1,-1,0,-2,-1,0,0,0,0,0,0,0,0,0},-0.1,0},
{1,{2,0,0,2,1,0,0,0,0,0,0,0,0,0},0.1,0},
{1,{2,1,0,-4,0,0,0,0,0,0,0,0,0,0},0.1,0},
{1,{4,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.1,0},
{2,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},120.56,-2301.27},
{2,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},-1.03,-143.27},
{2,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.28,-24.46},
{2,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},0.24,22.41},
{2,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},-1.19,-5.61},
{2,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},3.57,-1.83},
{2,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},0.24,-5.02},
{2,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.04,-3.23},
{2,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},-0.48,2.4},
{2,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.1,1.73},
{2,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},-0.02,1.33},
{2,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.04,0.83},
{2,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},-0.05,-0.79},
{2,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},0.03,-0.66},
{2,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.04,0.61},
{2,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},0,-0.64},
{2,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},-0.01,-0.41},
{2,{0,2,-2,2,-2,0,0,0,0,0,0,0,0,0},-0.01,0.35},
{2,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.01,-0.33},
{2,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},0.01,0.31},
{2,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.01,0.27},
{2,{0,2,2,-2,2,0,0,0,0,0,0,0,0,0},-0.07,-0.17},
{2,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},0.07,0.17},
{2,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},0.02,-0.21},
{2,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},0.01,0.2},
{2,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},0.01,-0.17},
{2,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},0.01,-0.16},
{2,{1,0,-2,-2,-1,0,0,0,0,0,0,0,0,0},0,-0.13},
{2,{0,0,1,-1,1,0,0,-1,0,-2,5,0,0,0},-0.07,-0.04},
{2,{0,1,2,0,2,0,0,0,0,0,0,0,0,0},0.02,0.08},
{3,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-15.22,-1.61},
{3,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},-1.16,-0.01},
{3,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.2,0},
{3,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},0.18,0},
{3,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},0.13,0},
{4,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.02,0.11},
};
static const CipTerm CIP_S[] = {
{0,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-2640.73,0.39},
{0,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-63.53,0.02},
{0,{0,0,2,-2,3,0,0,0,0,0,0,0,0,0},-11.75,-0.01},
{0,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},-11.21,-0.01},
{0,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},4.57,0},
{0,{0,0,2,0,3,0,0,0,0,0,0,0,0,0},-2.02,0},
{0,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},-1.98,0},
{0,{0,0,0,0,3,0,0,0,0,0,0,0,0,0},1.72,0},
{0,{0,1,0,0,1,0,0,0,0,0,0,0,0,0},1.41,0.01},
{0,{0,1,0,0,-1,0,0,0,0,0,0,0,0,0},1.26,0.01},
{0,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},0.63,0},
{0,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},0.63,0},
{0,{0,1,2,-2,3,0,0,0,0,0,0,0,0,0},-0.46,0},
{0,{0,1,2,-2,1,0,0,0,0,0,0,0,0,0},-0.45,0},
{0,{0,0,1,-1,1,0,-8,12,0,0,0,0,0,0},0.24,0.12},
{0,{0,0,4,-4,4,0,0,0,0,0,0,0,0,0},-0.36,0},
{0,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.32,0},
{0,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.28,0},
{0,{1,0,2,0,3,0,0,0,0,0,0,0,0,0},-0.27,0},
{0,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},-0.26,0},
{0,{0,0,2,-2,0,0,0,0,0,0,0,0,0,0},0.21,0},
{0,{0,1,-2,2,-3,0,0,0,0,0,0,0,0,0},-0.19,0},
{0,{0,1,-2,2,-1,0,0,0,0,0,0,0,0,0},-0.18,0},
{0,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1},0.1,-0.05},
{0,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.15,0},
{0,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},0.14,0},
{0,{1,0,0,-2,-1,0,0,0,0,0,0,0,0,0},-0.14,0},
{0,{1,0,0,-2,1,0,0,0,0,0,0,0,0,0},-0.14,0},
{0,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.14,0},
{0,{0,0,4,-2,4,0,0,0,0,0,0,0,0,0},-0.13,0},
{0,{0,0,2,-2,4,0,0,0,0,0,0,0,0,0},0.11,0},
{0,{1,0,-2,0,-3,0,0,0,0,0,0,0,0,0},-0.11,0},
{0,{1,0,-2,0,-1,0,0,0,0,0,0,0,0,0},-0.11,0},
{1,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-0.07,3.57},
{1,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},1.73,-0.03},
{1,{0,0,2,-2,3,0,0,0,0,0,0,0,0,0},0,0.48},
{2,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},743.52,-0.17},
{2,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},56.91,0.06},
{2,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},9.84,-0.01},
{2,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},-8.85,0.01},
{2,{0,1,0,0,0,0,0,0,0,0,0,0,0,0},-6.38,-0.05},
{2,{1,0,0,0,0,0,0,0,0,0,0,0,0,0},-3.07,0},
{2,{0,1,2,-2,2,0,0,0,0,0,0,0,0,0},2.23,0},
{2,{0,0,2,0,1,0,0,0,0,0,0,0,0,0},1.67,0},
{2,{1,0,2,0,2,0,0,0,0,0,0,0,0,0},1.3,0},
{2,{0,1,-2,2,-2,0,0,0,0,0,0,0,0,0},0.93,0},
{2,{1,0,0,-2,0,0,0,0,0,0,0,0,0,0},0.68,0},
{2,{0,0,2,-2,1,0,0,0,0,0,0,0,0,0},-0.55,0},
{2,{1,0,-2,0,-2,0,0,0,0,0,0,0,0,0},0.53,0},
{2,{0,0,0,2,0,0,0,0,0,0,0,0,0,0},-0.27,0},
{2,{1,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.27,0},
{2,{1,0,-2,-2,-2,0,0,0,0,0,0,0,0,0},-0.26,0},
{2,{1,0,0,0,-1,0,0,0,0,0,0,0,0,0},-0.25,0},
{2,{1,0,2,0,1,0,0,0,0,0,0,0,0,0},0.22,0},
{2,{2,0,0,-2,0,0,0,0,0,0,0,0,0,0},-0.21,0},
{2,{2,0,-2,0,-1,0,0,0,0,0,0,0,0,0},0.2,0},
{2,{0,0,2,2,2,0,0,0,0,0,0,0,0,0},0.17,0},
{2,{2,0,0,0,0,0,0,0,0,0,0,0,0,0},-0.13,0},
{2,{2,0,2,0,2,0,0,0,0,0,0,0,0,0},0.13,0},
{2,{1,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.12,0},
{2,{0,0,2,0,0,0,0,0,0,0,0,0,0,0},-0.11,0},
{3,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},0.3,-23.42},
{3,{0,0,2,-2,2,0,0,0,0,0,0,0,0,0},-0.03,-1.46},
{3,{0,0,2,0,2,0,0,0,0,0,0,0,0,0},-0.01,-0.25},
{3,{0,0,0,0,2,0,0,0,0,0,0,0,0,0},0,0.23},
{4,{0,0,0,0,1,0,0,0,0,0,0,0,0,0},-0.26,-0.01},
};
