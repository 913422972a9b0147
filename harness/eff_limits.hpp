// Limits of eff.cpp: well beyond the worst of 11500 observed systems (tools of the
// calibration: another seed than the checks use).  {steps, mean steps of a batch, mean
// digits per step of a batch, sparse fill, dense part, refinement residual (0: not judged)}
static const Lim LIMITS[2][NFAM][NVAR] = {
    {
        {{5, 3.95, 3.45, 2.14, 0.319, 1e-08}, {4, 2.8, 5.01, 2.19, 0.319, 1e-08}, {6, 4.41, 3.10, 45.00, 0.319, 1e-08}, {4, 2.8, 5.14, 45.00, 0.319, 1e-08}, {6, 4.41, 3.04, 45.00, 0.150, 1e-08}},  // convdiff2d
        {{6, 4.41, 2.95, 3.53, 0.295, 1e-08}, {5, 3.49, 4.04, 4.04, 0.295, 1e-08}, {8, 4.87, 2.78, 45.00, 0.295, 1e-08}, {5, 3.26, 4.30, 45.00, 0.295, 1e-08}, {8, 4.87, 2.75, 45.00, 0.150, 1e-08}},  // convdiff3d
        {{5, 3.95, 3.34, 2.07, 0.383, 1e-08}, {4, 2.8, 5.08, 2.09, 0.383, 1e-08}, {12, 6.71, 2.35, 45.00, 0.383, 1e-08}, {4, 2.8, 5.03, 45.00, 0.383, 1e-08}, {16, 7.17, 2.10, 45.00, 0.150, 1e-08}},  // helmholtz2d
        {{6, 5.1, 2.49, 3.52, 0.341, 1e-08}, {5, 3.72, 3.98, 4.16, 0.341, 1e-08}, {8, 5.56, 2.30, 45.00, 0.341, 1e-08}, {5, 3.72, 3.66, 45.00, 0.341, 1e-08}, {9, 5.79, 2.19, 45.00, 0.150, 1e-08}},  // helmholtz3d
        {{8, 5.79, 2.05, 1.70, 0.578, 1e-08}, {6, 4.18, 3.41, 1.72, 0.578, 1e-08}, {20, 11.31, 0.97, 45.00, 0.578, 0.3}, {14, 6.94, 1.61, 45.00, 0.578, 0.02}, {20, 12, 0.92, 45.00, 0.150, 0.3}},  // stokes
        {{8, 5.56, 1.78, 1.69, 0.577, 0}, {5, 3.95, 2.56, 1.71, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.150, 0}},  // stokes-singular
        {{5, 3.95, 3.21, 3.12, 0.452, 1e-08}, {5, 3.03, 4.84, 3.34, 0.452, 1e-08}, {8, 5.33, 2.57, 45.00, 0.452, 1e-08}, {5, 3.49, 4.18, 45.00, 0.452, 1e-08}, {8, 5.1, 2.41, 45.00, 0.150, 1e-08}},  // constrained
        {{8, 4.64, 2.71, 1.97, 0.282, 1e-08}, {4, 2.8, 4.96, 2.02, 0.286, 1e-08}, {8, 4.87, 2.75, 45.00, 0.282, 1e-08}, {4, 2.8, 5.00, 45.00, 0.286, 1e-08}, {8, 5.1, 2.41, 45.00, 0.150, 1e-08}},  // aniso2d
        {{5, 3.95, 3.19, 3.02, 0.232, 1e-08}, {4, 2.8, 4.94, 3.47, 0.232, 1e-08}, {5, 3.95, 3.20, 45.00, 0.232, 1e-08}, {4, 2.8, 4.88, 45.00, 0.232, 1e-08}, {5, 3.95, 3.18, 45.00, 0.150, 1e-08}},  // aniso3d
        {{5, 3.95, 2.84, 2.57, 0.350, 0}, {4, 2.8, 4.76, 2.65, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.150, 0}},  // neumann
    },
    {
        {{5, 3.95, 3.44, 2.14, 0.319, 0.0001}, {4, 2.8, 4.67, 2.19, 0.319, 0.0001}, {6, 4.41, 3.10, 45.00, 0.319, 0.0001}, {4, 2.8, 4.64, 45.00, 0.319, 0.0001}, {6, 4.41, 3.05, 45.00, 0.150, 0.0001}},  // convdiff2d
        {{6, 4.64, 2.84, 3.53, 0.295, 0.0001}, {5, 3.49, 4.19, 4.04, 0.295, 0.0001}, {8, 4.87, 2.77, 45.00, 0.295, 0.0001}, {5, 3.49, 4.08, 45.00, 0.295, 0.0001}, {8, 5.1, 2.56, 45.00, 0.150, 0.0001}},  // convdiff3d
        {{6, 4.18, 3.27, 2.07, 0.383, 0.0002}, {5, 3.26, 4.26, 2.09, 0.383, 0.0002}, {12, 6.02, 2.26, 45.00, 0.383, 0.0002}, {5, 3.26, 4.23, 45.00, 0.383, 0.0002}, {16, 7.86, 2.09, 45.00, 0.150, 0.0002}},  // helmholtz2d
        {{6, 5.1, 2.47, 3.52, 0.341, 0.0001}, {5, 3.72, 3.70, 4.16, 0.341, 0.0001}, {8, 5.33, 2.29, 45.00, 0.341, 0.0001}, {5, 3.72, 3.72, 45.00, 0.341, 0.0001}, {9, 5.79, 2.07, 45.00, 0.150, 0.0001}},  // helmholtz3d
        {{8, 5.79, 2.03, 1.70, 0.578, 0.0001}, {5, 3.95, 3.47, 1.71, 0.578, 0.0001}, {20, 12, 0.90, 45.00, 0.578, 0.3}, {14, 7.4, 1.82, 45.00, 0.578, 0.02}, {20, 12, 0.95, 45.00, 0.150, 0.3}},  // stokes
        {{4, 2.8, 2.24, 1.69, 0.577, 0}, {4, 2.34, 3.69, 1.71, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.577, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.150, 0}},  // stokes-singular
        {{5, 3.95, 3.17, 3.12, 0.452, 0.0001}, {5, 3.03, 4.62, 3.34, 0.452, 0.0001}, {8, 5.1, 2.59, 45.00, 0.452, 0.0001}, {5, 3.49, 4.17, 45.00, 0.452, 0.0001}, {8, 5.33, 2.39, 45.00, 0.150, 0.0001}},  // constrained
        {{8, 5.1, 2.45, 1.97, 0.282, 0.0001}, {4, 2.8, 4.54, 2.02, 0.288, 0.0001}, {8, 4.64, 2.80, 45.00, 0.282, 0.0001}, {4, 2.8, 4.65, 45.00, 0.286, 0.0001}, {8, 4.64, 2.80, 45.00, 0.150, 0.0001}},  // aniso2d
        {{5, 3.95, 3.22, 3.02, 0.232, 0.0001}, {4, 2.8, 4.79, 3.47, 0.232, 0.0001}, {5, 3.95, 3.08, 45.00, 0.232, 0.0001}, {4, 2.8, 4.82, 45.00, 0.232, 0.0001}, {5, 3.95, 3.07, 45.00, 0.150, 0.0001}},  // aniso3d
        {{4, 2.57, 2.91, 2.57, 0.350, 0}, {3, 1.65, 4.25, 2.65, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.350, 0}, {1e+09, 1e+09, 0.00, 45.00, 0.150, 0}},  // neumann
    },
};
