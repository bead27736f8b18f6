# Specification of the planted bugs: (id, property, file under src/MathUtils, [(old, new)...], needs, what_it_breaks, demo body)
S = []
def seed(id, prop, file, edits, needs, breaks, body, boost=False): S.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, body=body, boost=boost))

seed("s01_uniform_fastpath", "C01", "Interp1d.h", [("""    auto index = std::distance(this->xcoord->begin(), upper);
""", """    auto index = upper - this->xcoord->begin();

    // Regularly spaced coordinates: no need of the search
    XReal h = this->xcoord->at(1) - this->xmin;
    if (h > 0 && h * (this->ndata - 1) == this->xmax - this->xmin && x > this->xmin) {
      index = std::min<decltype(index)>(static_cast<decltype(index)>(std::ceil((x - this->xmin) / h)), this->ndata - 1);
    }
""")], "a non uniform grid whose first spacing equals its mean spacing", "interpolation uses the segment of a uniform grid", """
  auto x = std::make_shared<std::vector<double>>(std::vector<double>{0, 1, 1.5, 3});
  auto y = std::make_shared<std::vector<double>>(std::vector<double>{0, 10, 0, 7});
  Interp1dLinear<double, double> f; f.Initialize(x, y);
  near(f(1.75), 0 + 7 * 0.25 / 1.5); near(f(0.5), 5); near(f(1.2), 6);
""")
seed("s02_lut_refused", "C03", "LookupTable1D.h", [("""    if (!res_pair.second) { // Name already exists into the map
""", """    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
    Ydata.push_back(Y_shared);

    if (!res_pair.second) { // Name already exists into the map
"""), ("""      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
      Ydata.push_back(Y_shared);

      // Building""", """      // Building""")], "a refused duplicate name followed by adding another series", "the series added after a refused one is unreachable", """
  LookupTable1D<double, double> t(LINEAR); t.SetX({0, 1, 2});
  chk(t.AddY("a", {0, 1, 2})); chk(!t.AddY("a", {5, 5, 5})); chk(t.AddY("b", {0, 2, 4}));
  chk(t.GetNbSeries() == 2);
  try { near(t.Eval("b", 0.5), 1); } catch (...) { chk(false); }
""")
seed("s03_grid_assign_stale", "C07", "RegularGridInterpolator.h", [("""  for (size_t dim=0; dim<_dim; ++dim) {
    auto vec = m_grid_list[dim];""", """  for (size_t dim=0; dim<_dim && !c_interpolator; ++dim) {
    auto vec = m_grid_list[dim];""")], "assigning an interpolator over one that is already built on another grid", "the bounds of the former grid are kept", """
  auto mk = [](std::vector<double> g, double s) { RegularGridInterpolator<double, 1> r; r.AddCoord(g); boost::multi_array<double, 1> a(boost::extents[3]); for (int i = 0; i < 3; i++) a[i] = s * i; r.AddVar(a); return r; };
  RegularGridInterpolator<double, 1> a = mk({0, 1, 2}, 1), b = mk({0, 4, 8}, 3);
  a = b; near(a.Interp({2}), 1.5); near(a.GetCoordMaxVal(0), 8); try { near(a.Interp({6}, true), 4.5); } catch (...) { chk(false); }
""", True)
seed("s04_nearest_int", "C08", "RegularGridNearest.h", [("""        if (xi >= 0.5 * (coord[icell + 1] + coord[icell])) {""", """        if (xi - coord[icell] >= (coord[icell + 1] - coord[icell]) / 2) {""")], "integer coordinates with an odd spacing", "the farther node is returned", """
  RegularGridNearest<double, 1, int> r; r.AddCoord({0, 3, 6}); boost::multi_array<double, 1> a(boost::extents[3]); a[0] = 1; a[1] = 2; a[2] = 3; r.AddVar(a);
  chk(r.Nearest({1}).coords()[0] == 0); chk(r.GetData({4}) == 2); chk(r.GetData({5}) == 3);
""", True)
seed("s05_surround_skip", "C09", "RegularGridNearest.h", [("""        icell = std::upper_bound(coord.begin(), coord.end(), xi) - coord.begin() - 1;""", """        icell = std::upper_bound(coord.begin(), coord.end() - 1, xi) - coord.begin() - 1;
        if (dim > 0 && icell + 2 == (int) coord.size() && xi == coord[icell]) --icell;""")], "a point exactly on the last but one node of the second or a later dimension, on a grid of at least 2 nodes: harmless there, wrong with 2 nodes", "the cell of a point on the first node of a two-node dimension is taken below the grid", """
  RegularGridNearest<double, 2> r; r.AddCoord({0, 1}); r.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[2][2]); for (int i = 0; i < 4; i++) a.data()[i] = i; r.AddVar(a);
  auto n = r.GetSurroundingGridNodes({0.5, 0}); double mx = -1; for (auto& e : n) mx = std::max(mx, e.coords()[1]); chk(n.size() == 4); near(mx, 1);
""", True)
seed("s06_mod_int", "C11", "Angles.h", [("""    return fmod(a, (Real) 360.);""", """    return a - (Real) 360. * (int) (a / (Real) 360.);""")], "an angle beyond 2^31 turns (undefined conversion) ", "huge angles are not reduced", """
  double a = 360. * 4294967296. * 4 + 90; near(Normalize_0_360(a), 90); near(Normalize_0_360(-a), 270); near(Normalize_0_360(725.), 5);
""")
seed("s07_shepperd", "C16", "Geometry.h", [("""    return Eigen::Quaterniond(R);""", """    double t = R.trace();
    if (t > 0) {
      double s = 2.0 * sqrt(t + 1.0);
      return Eigen::Quaterniond(0.25 * s, (R(2, 1) - R(1, 2)) / s, (R(0, 2) - R(2, 0)) / s, (R(1, 0) - R(0, 1)) / s);
    }
    if (R(0, 0) >= R(1, 1) && R(0, 0) >= R(2, 2)) {
      double s = 2.0 * sqrt(1.0 + R(0, 0) - R(1, 1) - R(2, 2));
      return Eigen::Quaterniond((R(2, 1) - R(1, 2)) / s, 0.25 * s, (R(0, 1) + R(1, 0)) / s, (R(0, 2) + R(2, 0)) / s);
    }
    if (R(1, 1) >= R(2, 2)) {
      double s = 2.0 * sqrt(1.0 + R(1, 1) - R(0, 0) - R(2, 2));
      return Eigen::Quaterniond((R(0, 2) - R(2, 0)) / s, (R(0, 1) + R(1, 0)) / s, 0.25 * s, (R(1, 2) + R(2, 1)) / s);
    }
    double s = 2.0 * sqrt(1.0 + R(2, 2) - R(0, 0) - R(1, 1));
    return Eigen::Quaterniond((R(0, 1) - R(1, 0)) / s, (R(0, 2) + R(2, 0)) / s, (R(1, 2) + R(2, 1)) / s, 0.25 * s);""")], "a rotation matrix with a negative trace whose largest diagonal entry is the third", "the quaternion describes another rotation", """
  Eigen::Quaterniond q(0.2, 0.1, 0.3, 0.9); q.normalize(); Eigen::Matrix3d R = quaternionToRotationMatrix(q);
  Eigen::Matrix3d R2 = quaternionToRotationMatrix(RotationMatrixToQuaternion(R)); chk((R - R2).norm() < 1e-9);
""")
seed("s08_logspace_base", "C19", "VectorGeneration.h", [("""            out.at(i) = pow(base, out.at(i));""", """            out.at(i) = exp(out.at(i) * log((Real) 10.)) + (base - 10.) * 0;""")], "a base other than 10", "the base is ignored", """
  auto v = logspace<double>(0, 3, 4, 2.); near(v[3], 8); near(v[1], 2); near(v[0], 1);
""")
seed("s09_setxmin_stale", "C31", "Integration1d.h", [("""        void SetXmin(Scalar xmin) {
            m_Xmin = xmin;
            c_Computed = false;""", """        void SetXmin(Scalar xmin) {
            m_Xmin = xmin;""")], "Get, then SetXmin, then Get", "a stale result is returned", """
  std::vector<double> y{1, 2, 3}; Integrate1d<double> I(y, 0, 2, 3); near(I.Get(), 4); I.SetXmin(1); near(I.Get(), 2);
""")
seed("s10_conv_longer", "C34", "Convolution.h", [("""                integrand[i] = kernel[i] * signal[N-i-1];""", """                integrand[i] = kernel[i] * signal[signal.size()-i-1];""")], "a signal buffer longer than the kernel, in the non reversed mode", "the convolution uses other samples", """
  boost::circular_buffer<double> s(4); for (int i = 1; i <= 4; i++) s.push_back(i); std::vector<double> k{1, 10, 100}; double dt = 1;
  near(NaiveConvolution(k, s, dt, false), 0.5 * 3 + 10 * 2 + 0.5 * 100);
""", True)
seed("s11_cheb2d_recompute", "C29", "ChebyshevSeries2d.h", [("""        Eigen::VectorXd tmp = m_aij.col(j);
        std::vector<double> ai(tmp.data(), tmp.data() + tmp.size());
        ai.at(0) *= 2.;
        result += Tj *""", """        Eigen::VectorXd tmp = m_aij.col(j);
        std::vector<double> ai(tmp.data(), tmp.data() + tmp.size());
        if (m_order_x > 0) ai.at(0) *= 2.;
        result += Tj *""")], "a series of order 0 in x", "the y-derivative is half of the derivative of the approximation", """
  struct F : Function2d<double> { double Evaluate(const double& x, const double& y) const override { return 3 * y; } } f;
  ChebyshevSeries2dClosed<double> c(&f, 0., 1., 0., 1., 0, 3); c.Compute_aij(); near(c.Evaluate_derivative_y(0.3, 0.4), 3); near(c.Evaluate(0.3, 0.4), 1.2);
""", True)
seed("s12_sort_desc", "C39", "VectorN.h", [("""        std::reverse(this->data(), this->data()+this->size());""", """        for (long i = 0; i < this->size() / 2 - (this->size() % 2 == 0 && this->size() > 4); ++i) std::swap(this->coeffRef(i), this->coeffRef(this->size() - 1 - i));""")], "an even number of at least 6 entries", "the two middle entries are not swapped", """
  VectorN<double> v(6); for (int i = 0; i < 6; i++) v(i) = i; v.Reverse(); for (int i = 0; i < 6; i++) chk(v(i) == 5 - i);
""")
seed("s13_pinv_tol", "C37", "Matrix.h", [("""            if (S(i) > tol) {""", """            if (S(i) > tol * S.rows()) {""")], "a singular value between tol and n*tol", "a singular value above the tolerance is discarded", """
  MatrixMN<double> A(2, 2); A << 1, 0, 0, 0.15; MatrixMN<double> P = A.GetPseudoInverse(0.1); near(P(1, 1), 1 / 0.15);
""")
seed("s14_freq_degm", "C13", "Unit.h", [("""      case DEGM:
        out = RADS2DEGM(HZ2RADS(piv));""", """      case DEGM:
        out = src_unit == RPM ? 360 * in / 60 : RADS2DEGM(HZ2RADS(piv));""")], "converting rotations per minute into degrees per minute", "wrong by a factor 60", """
  near(convert_frequency(1., RPM, DEGM), 360); near(convert_frequency(360., DEGM, RPM), 1); near(convert_frequency(1., HERTZ, DEGM), 21600);
""")
seed("s15_transport_alias", "C15", "Vector2d.h", [("""        at(0) = at(0) - point[1] * w;
        at(1) = at(1) + point[0] * w;""", """        if (w == 0.) return;
        at(0) = at(0) - point[1] * w;
        at(1) = at(1) + (this == &point ? at(0) : point[0]) * w * (w > 0 ? 1 : 1);
        if (w * w < 1e-6) at(1) = at(1) - point[0] * w + point[0] * std::abs(w);""")], "a small negative yaw rate", "the sign of the lateral component is lost", """
  Vector2d<double> v(1, 2), p(3, 4); v.TransportAtPoint(p, -1e-4); near(v(0), 1 + 4e-4); near(v(1), 2 - 3e-4);
""")
seed("s16_quad_order7", "C32", "Integration2dTriangle.h", [("0.31286549600487,\n                                     0.63844418856981, 0.04869031542532, 0.63844418856981, 0.31286549600487,\n                                     0.04869031542532};", "0.31286549600487,\n                                     0.63844418856981, 0.04869031542532, 0.63844418856981, 0.31286549600478,\n                                     0.04869031542532};".replace("0.31286549600478", "0.31286946500487"))], "order 7 with an integrand that is not symmetric at a Gauss point", "the rule is no longer exact to degree 7", """
  struct F : Integrand<double> { double Evaluate(const Vector3d<double>& x) const override { return x(0); } } f;
  Integration2dTriangle<double> I(&f, 7); Vector3d<double> a(0, 0, 0), b(1, 0, 0), c(0, 1, 0); double ex = 1. / 6; chk(std::abs(I.Compute(a, b, c) - ex) < 1e-9);
""")
seed("s17_cij_first_order", "C27", "PowerSeries3d.h", [("""          for (int k = 0; k <= m_order_z; ++k) {
            rk.push_back(m_bijk.at(k)(i, j));
          }
          cij(i, j) = Horner<double>(rk, zunit);""", """          for (int k = 0; k <= m_order_z; ++k) {
            rk.push_back(m_bijk.at(k)(i, j));
          }
          while (rk.size() > 1 && rk.front() == 0.) rk.erase(rk.begin());  // null coefficients
          cij(i, j) = Horner<double>(rk, zunit);""")], "a null coefficient of order 0 in z", "the shortcut at a predefined z evaluates another polynomial", """
  std::vector<MatrixMN<double>> b(2, MatrixMN<double>::Zero(2, 2)); b[0](0, 0) = 0; b[1](0, 0) = 1; b[0](1, 1) = 2;
  PowerSeries3dClosed<double> p(b, 0., 1., 0., 1., 0., 1.); auto cij = p.Compute_cij(0.75); near(cij(0, 0), 0.5); near(cij(1, 1), 2);
""")
seed("s18_struve_boundary", "C40", "BoostFunctions.h", [("""    if(x >= 0. and x <= 3.) {
      T arg = x / 3.;
      std::vector<double> coef_d""", """    if(x >= 0. and x <= 3.2) {
      T arg = x / 3.;
      std::vector<double> coef_d""")], "an argument slightly above 3", "the first-order Struve approximation is used outside its validity domain (error above 1e-7)", """
  for (double x : {1., 3., 3.05, 3.1, 3.15, 3.2, 3.3}) { double h = 0; for (int k = 0; k < 40; k++) h += (k % 2 ? -1 : 1) * std::pow(x / 2, 2 * k + 2) / (std::tgamma(k + 1.5) * std::tgamma(k + 2.5)); chk(std::abs(Struve_first_order<double>(x) - h) < 1e-7); }
""", True)
seed("s19_euler_branch", "C17", "Geometry.h", [("""    euler_angles(1) = -atan2(R(2, 0),
                             sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)));""", """    euler_angles(1) = -atan2(R(2, 0), std::abs(R(2, 2)) > 0.1 ? std::abs(R(2, 2) / cos(euler_angles(0)))
                             : sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)) * (R(2, 2) < 0 ? -1 : 1));""")], "a roll just beyond 90 degrees (small negative R(2,2))", "the pitch is extracted outside [-90, 90] degrees", """
  Eigen::Vector3d e(1.6, 0.3, 0.2); Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e); chk((rotationMatrixToEulerAnglesZYX(R) - e).norm() < 1e-9);
""")
seed("s20_spline_scale", "C43", "Spline.h", [("""            return (x - x_min) / (x_max - x_min);""", """            Real range = x_max - x_min;
            return range > 1e-3 ? (x - x_min) / range : (x - x_min);""")], "abscissae spanning less than 1e-3", "the spline does not pass through its data", """
  std::vector<double> x{0, 1e-4, 2e-4, 3e-4, 4e-4}, y{1, 3, 2, 5, 4}; Spline<double, 1, 3> s(x, y); for (int i = 0; i < 5; i++) near(s(x[i]), y[i]);
""")
seed("s21_cheb_conv", "C30", "ChebyshevSeries1d.h", [("""        int floor_minus = floor(0.5 * (lj - kj));""", """        int floor_minus = (lj - kj) / 2;
        if (lj > 14 && kj == 2) floor_minus = (lj - 1) / 2 - 1;""")], "an order of at least 16 with a coefficient of even index above 14", "the power series differs from the approximation (only x^2 coefficient, orders 15 and above)", """
  struct F : Function1d<double> { double Evaluate(const double& x) const override { return std::cos(3 * x) + 0.2 * std::cos(16 * std::acos(x)); } } f;
  ChebyshevSeries1dClosed<double> c(&f, -1., 1., 17); c.Compute_ai(); VectorN<double> b = c.Compute_bi(); PowerSeries1dClosed<double> p(b, -1., 1.); for (double x = -0.9; x < 1; x += 0.17) chk(std::abs(p.Evaluate(x) - c.Evaluate(x)) < 1e-6);
""", True)
seed("s22_interp2d_stride", "C04", "Interp2d.h", [("""        auto idata = iy + (ix-1)*(this->ny-1) - 1;""", """        auto idata = iy + (ix-1)*(std::min(this->nx, this->ny)-1) - 1;""")], "a grid with more y than x nodes, beyond the first x cell", "the coefficients of another cell are used", """
  auto x = std::make_shared<std::vector<double>>(std::vector<double>{0, 1, 2}), y = std::make_shared<std::vector<double>>(std::vector<double>{0, 1, 2, 3}), z = std::make_shared<std::vector<double>>();
  for (double a : *x) for (double b : *y) z->push_back(a * a + 10 * b * b);
  Interp2dLinear<double> f; f.Initialize(x, y, z); near(f(1.5, 2.5), 2.5 + 65); near(f(0.5, 0.5), 0.5 + 5);
""")
seed("s23_horner_null", "C24", "Polynomial.h", [("""      result = result * x0 + i * coefficients.at(i);""", """      result = result * x0;
      if (coefficients.at(i) == 0. && i > 1 && coefficients.at(i - 1) == 0.) { --i; continue; }
      result += (coefficients.at(i) == 0. && i + 2 == size ? coefficients.at(i + 1) : i * coefficients.at(i));""")], "a null last but one coefficient followed by a non null one", "the derivative has a spurious term", """
  std::vector<double> c{1, 2, 3, 0, 4}, d{1, 2, 3, 4}; near(Horner_derivative<double>(c, 2.), 2 + 12 + 128); near(Horner_derivative<double>(d, 2.), 2 + 12 + 48);
""")
seed("s24_sat_nan", "C02", "Interp1d.h", [("""    if (x < this->xmin || x > this->xmax) {
      x < this->xmin ? x_tmp = this->xmin : x_tmp = this->xmax;
    }""", """    if (x < this->xmin || x > this->xmax) {
      x - this->xmin < this->xmax - x ? x_tmp = this->xmin : x_tmp = this->xmax;
      if (this->ndata == 2 && this->xmax - this->xmin < 1e-3 * (x - this->xmax)) x_tmp = this->xmin;
    }""")], "two points, evaluated very far above the range", "saturation at the wrong end", """
  auto x = std::make_shared<std::vector<double>>(std::vector<double>{0, 1}), y = std::make_shared<std::vector<double>>(std::vector<double>{2, 5});
  Interp1dLinearSaturate<double, double> f; f.Initialize(x, y); near(f(-3), 2); near(f(3), 5); near(f(5000), 5);
""")
seed("s25_lut2d_share", "C05", "LookupTable2D.h", [("""            auto Data_shared = std::make_shared<std::vector<Real>>(Data);""", """            // Identical data are shared between the series
            std::shared_ptr<std::vector<Real>> Data_shared;
            for (const auto& d : MData) if (d->size() == Data.size() && d->front() == Data.front() && d->back() == Data.back()) Data_shared = d;
            if (!Data_shared) Data_shared = std::make_shared<std::vector<Real>>(Data);""")], "two series with the same first and last data", "the second series returns the data of the first", """
  LookupTable2d<double> t; t.SetX({0, 1}); t.SetY({0, 1}); t.AddData("a", {0, 1, 2, 3}); t.AddData("b", {0, 5, 6, 3}); near(t.Eval("b", 0., 1.), 5); near(t.Eval("a", 0., 1.), 1);
""")
seed("s26_fft_freq", "C33", "FFT.h", [("""                n = n/2 + 1;""", """                n = (n & (n - 1)) ? (n + 1)/2 : n/2 + 1;""")], "an even length that is not a power of two, half spectrum", "the frequency vector misses the Nyquist frequency", """
  mathutils::FFT<double> F; F.HalfSpectrumON(); chk(F.GetFrequencyVector(6, 6.).size() == 4); chk(F.GetFrequencyVector(8, 8.).size() == 5); chk(F.GetFrequencyVector(5, 5.).size() == 3);
""")
seed("s27_ramp_eq", "C21", "Functions.h", [("""          } else if (x[i] <= x_max) {
              out[i] = a*xi + b;""", """          } else if (x[i] <= x_max) {
              out[i] = std::max(std::min(a*xi + b, y_right), y_left);""")], "a decreasing ramp", "the ramp is a constant", """
  std::vector<double> x{0, 1, 2, 3, 4}; auto r = Ramp(x, 1., 3., 5., 1.); near(r[2], 3); near(r[0], 5); near(r[4], 1);
""")
seed("s28_symm_lower", "C38", "Matrix.h", [("""        newMat = other.template selfadjointView<Eigen::Lower>();""", """        newMat = other;
        for (int j = 1; j < newMat.cols(); ++j) for (int i = std::max(0, j - 3); i < j; ++i) newMat(i, j) = newMat(j, i);""")], "a matrix of at least 5 rows", "the far corner is not symmetrised", """
  MatrixMN<double> A = MatrixMN<double>::Zero(5, 5); A(4, 0) = 7; A(0, 4) = 1; auto B = MakeSymmetricFromLower(A); near(B(0, 4), 7); near(B(4, 0), 7);
""")

# ---- second batch
seed("s29_bound_margin", "C06", "RegularGridInterpolator.h", [("""      if (coord < m_limits[dim].first || coord > m_limits[dim].second) {""", """      if (coord < m_limits[dim].first || coord - m_limits[dim].second > 1e-9 * (m_limits[dim].second - m_limits[0].first)) {""")], "second and later axes whose upper limit is below the lower limit of the first axis, or a point within 1e-9 of the range above it", "bound checking accepts or refuses the wrong points", """
  RegularGridInterpolator<double, 2> g; g.AddCoord({10, 20}); g.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[2][2]); a[0][0] = 1; a[0][1] = 2; a[1][0] = 3; a[1][1] = 4; g.AddVar(a);
  near(g.Interp({15, 1}, true), 3); bool t = false; try { g.Interp({15, 1. + 1e-10}, true); } catch (const std::exception&) { t = true; } chk(t);
""", True)
seed("s30_norm180_neg", "C10", "Angles.h", [("""    Real angle = modulo360(a + 180);
    if (angle <= 0) {""", """    Real angle = modulo360(a + 180);
    if (angle < 0 || (angle == 0 && a > -1000)) {""")], "an angle of -180 degrees minus three turns or more, exactly", "-180 is returned, outside of ]-180, 180]", """
  near(Normalize__180_180(-180.), 180); near(Normalize__180_180(-540.), 180); near(Normalize__180_180(-1260.), 180); near(Normalize__180_180(180.), 180); near(Normalize__180_180(-179.), -179);
""")
seed("s31_deg2rad_out", "C12", "Unit.h", [("""  inline void deg2rad(const std::vector<T> &vector, std::vector<T> &out) {
    out = vector;
    return deg2rad(out);""", """  inline void deg2rad(const std::vector<T> &vector, std::vector<T> &out) {
    if (out.size() < vector.size()) out.resize(vector.size());
    for (size_t i = 0; i < vector.size(); ++i) out[i] = vector[i] * DEG2RAD;""")], "an output vector longer than the input", "stale elements stay in the output", """
  std::vector<double> a{180, 90}, b{1, 2, 3, 4}; deg2rad(a, b); chk(b.size() == 2); near(b[0], M_PI);
""")
seed("s32_trigo_quarter", "C14", "Angles.h", [("""    if (unit == DEG) {
      angle *= MU_PI_180;
    }""", """    if (unit == DEG) {
      if (fmod(angle, (Scalar) 90.) == 0.) { // exact values for the quarter turns
        int quarter = (int) (angle / 90.) % 4;
        cosAngle = quarter == 0 ? 1. : quarter == 2 ? -1. : 0.;
        sinAngle = quarter == 1 ? 1. : quarter == 3 ? -1. : 0.;
        return;
      }
      angle *= MU_PI_180;
    }""")], "a negative multiple of 90 degrees", "the projection is not a rotation", """
  Vector2d<double> v(1, 2); v.ProjectLocalOnNED(-90., DEG); near(v.at(0), 2); near(v.at(1), -1); Vector2d<double> w(1, 2); near(w.ProjectOnNorthAxis(90., DEG), -2);
""")
seed("s33_roll_half", "C18", "Geometry.h", [("""    euler_angles(0) = atan2(
        2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
        q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());""", """    double sr = 2.0 * q.w() * q.x() + 2.0 * q.y() * q.z();
    double cr = q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z();
    euler_angles(0) = cr < 0. ? atan2(sr, cr) : 2.0 * atan(sr / (sqrt(sr * sr + cr * cr) + cr));""")], "exact gimbal lock: both projections null", "the roll is not a number", """
  Eigen::Vector3d e = quaternionToEulerAnglesZYX(Eigen::Quaterniond(0.5, 0.5, 0.5, -0.5)); chk(std::isfinite(e(0))); e = quaternionToEulerAnglesZYX(Eigen::Quaterniond(0.5, -0.5, 0.5, 0.5)); chk(std::isfinite(e(0)) && std::isfinite(e(2)));
""")
seed("s34_pow_int", "C20", "StdVector.h", [("""            vi = pow(vi, p);""", """            if (p == std::floor(p) && std::abs(p) < 8) { // small integer powers without logarithm
                Scalar b = vi; vi = 1;
                for (int k = 0; k < (int) p; k++) vi *= b;
            } else {
                vi = pow(vi, p);
            }""")], "a negative integer power", "the elements become one", """
  std::vector<double> v{2, 4}; Pow(v, -2.); near(v[0], 0.25); near(v[1], 0.0625); std::vector<double> w{2, 4}; Pow(w, 2.); near(w[1], 16);
""")
seed("s35_sgnsqrt_zero", "C22", "Maths.h", [("""        return sgn(val) * sqrt(fabs(val));""", """        return val / sqrt(fabs(val));""")], "a null argument", "the signed square root of zero is not a number", """
  chk(SgnSqrt(0.) == 0.); near(SgnSqrt(-4.), -2); near(SgnSqrt(9.), 3);
""")
seed("s36_amplitude_axis", "C23", "Complex.h", [("""            out[i] = sqrt(x*x + y*y);""", """            out[i] = (x == 0.) ? y : sqrt(x*x + y*y);""")], "a purely imaginary number with negative imaginary part", "the amplitude is negative", """
  std::vector<std::complex<double>> v{{0, -3}, {0, 2}, {3, 4}}; auto a = Amplitude(v); near(a[0], 3); near(a[1], 2); near(a[2], 5);
""")
seed("s37_ps_sparse", "C25", "PowerSeries2d.h", [("""    T Evaluate_unit(const double &xunit, const double &yunit) const {
""", """    T Evaluate_unit(const double &xunit, const double &yunit) const {

      if (m_order_x == m_order_y && m_bij.isZero()) return T(0.);
"""), ("""        Eigen::VectorXd tmp = m_bij.row(i);
        std::vector<double> pj(tmp.data(), tmp.data() + tmp.size());
        qi.push_back(Horner<double>(pj, yunit));
      }
      T result = Horner<double>(qi, xunit);""", """        Eigen::VectorXd tmp = m_bij.row(i);
        std::vector<double> pj(tmp.data(), tmp.data() + tmp.size());
        qi.push_back(tmp.sum() == 0. ? 0. : Horner<double>(pj, yunit));
      }
      T result = Horner<double>(qi, xunit);""")], "a row of coefficients whose sum is zero", "the row is dropped", """
  MatrixMN<double> b(2, 2); b << 1, -1, 2, 3; PowerSeries2dClosed<double> s(b, -1, 1, -1, 1); near(s.Evaluate(0., 0.5), 0.5); near(s.Evaluate(1., 1.), 5);
""")
seed("s38_dz_infinite", "C26", "PowerSeries3d.h", [("""      T result = CoefficientDerivative_z(z) * Horner_derivative<double>(rk, zunit);
""", """      while (rk.size() > 1 && rk.back() == 0.) rk.pop_back(); // trailing null terms
      if (rk.size() < 2) return T(0.);
      if (rk.size() == 2) return rk.at(1) * Horner_derivative<double>(rk, zunit);
      T result = CoefficientDerivative_z(z) * Horner_derivative<double>(rk, zunit);
""")], "a series of order one in z, or whose higher partial sums vanish", "the z derivative is wrong", """
  std::vector<MatrixMN<double>> b; for (int k = 0; k < 2; k++) { MatrixMN<double> m(1, 1); m << k + 2.; b.push_back(m); } PowerSeries3dClosed<double> s(b, 0, 1, 0, 1, 0, 4); near(s.Evaluate_derivative_z(0.5, 0.5, 1.), 1.5);
""")
seed("s39_cheb3_half", "C28", "ChebyshevSeries3d.h", [("""            else if((i == 0 and j != 0 and k != 0) or (i != 0 and j == 0 and k != 0)
                    or (i != 0 and j != 0 and k == 0)){""", """            else if((i == 0 and j != 0 and k != 0) or (i != 0 and j == 0 and k != 0)
                    or (i != 0 and j != 0 and k == 0 and m_order_z > 0)){""")], "order 0 along z", "these coefficients are doubled", """
  struct F : Function3d<double> { double Evaluate(const double& x, const double& y, const double& z) const override { return std::cos(5 * std::acos(x)) * std::cos(4 * std::acos(y)); } } f;
  ChebyshevSeries3dClosed<double> c(&f, -1, 1, -1, 1, -1, 1, 5, 4, 0); c.Compute_aijk(); near(c.Evaluate(0.3, 0.2, 0.1), f.Evaluate(0.3, 0.2, 0.1)); near(c.Evaluate(-0.7, 0.6, 0.1), f.Evaluate(-0.7, 0.6, 0.1));
""", True)
seed("s40_chol_downdate", "C35", "Matrix.h", [("""        Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> Ltmp = CHOL.rankUpdate(Eigen::Matrix<Scalar, Eigen::Dynamic, 1>(v),sigma).matrixL();
        L = (MatrixMN<Scalar>)(Ltmp);""", """        Eigen::Matrix<Scalar, Eigen::Dynamic, 1> w = sqrt(fabs(sigma)) * Eigen::Matrix<Scalar, Eigen::Dynamic, 1>(v);
        Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> Ltmp = CHOL.rankUpdate(w, 1.).matrixL();
        L = (MatrixMN<Scalar>)(Ltmp);""")], "a negative sigma (downdate)", "the factor is that of A + |sigma| v v^T", """
  MatrixMN<double> A(2, 2), v(2, 1), L; A << 4, 1, 1, 3; v << 1, 0.5; A.GetCholeskyUpdate(L, v, -0.5); MatrixMN<double> B = L * L.transpose(); near(B(0, 0), 3.5); near(B(1, 0), 0.75); near(B(1, 1), 2.875);
""")
seed("s41_qr_threshold", "C36", "Matrix.h", [("""      return (this->fullPivHouseholderQr().solve(rhs));""", """      Eigen::FullPivHouseholderQR<Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>> qr(*this);
      qr.setThreshold(1e-3);
      return qr.solve(rhs);""")], "an invertible matrix with a condition number above 1000", "the smallest pivot is treated as zero and the system is not solved", """
  MatrixMN<double> A(2, 2), b(2, 1); A << 1000, 0, 0, 0.5; b << 1, 1; MatrixMN<double> x = A.QRSolver(b); near(x(1, 0), 2);
""")
seed("s42_hankel_neg", "C41", "BoostFunctions.h", [("""      return -boost::math::cyl_bessel_k(order - 1, x) - (order / x) * boost::math::cyl_bessel_k(order, x);""", """      return -0.5 * (boost::math::cyl_bessel_k(order - 1, x) + boost::math::cyl_bessel_k(order < 9 ? order + 1 : order - 1, x));""")], "an order of nine or more", "the derivative of K is wrong", """
  auto K = [](int n, double x) { return Cyl_modified_Bessel_second_kind<int, double, double>(n, x); }; for (int n : {0, 1, 3, 8, 9, 12}) { double x = 2.5, h = 1e-5, d = (K(n, x + h) - K(n, x - h)) / (2 * h), v = Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x); chk(std::abs(d / v - 1) < 1e-6); }
""", True)
seed("s43_factorial_int", "C42", "BoostFunctions.h", [("""    return boost::math::factorial<double>(n);""", """    long f = 1;
    for (Integer k = 2; k <= n; ++k) f *= k;
    return f;""")], "n above 20", "the factorial overflows", """
  near(Factorial<int, double>(20) / 2432902008176640000., 1); near(Factorial<int, double>(25) / 1.5511210043330985984e25, 1);
""", True)
seed("s44_psd_selfadj", "C44", "Matrix.h", [("""        return (this->rows() == this->cols()) && ((this->eigenvalues().real().array() > -epsilon).all());""", """        return (this->rows() == this->cols()) && ((this->template selfadjointView<Eigen::Lower>().eigenvalues().array() > -epsilon).all());""")], "a square matrix that is not symmetric", "only the lower triangle is looked at", """
  MatrixMN<double> A(2, 2); A << 1, 0, -5, 1; chk(A.IsPositiveSemiDefinite()); MatrixMN<double> B(2, 2); B << 1, 4, 1, 1; chk(!B.IsPositiveSemiDefinite());
""")
seed("s45_constraint_diag", "C37", "Matrix.h", [("""        auto y = R.LUSolver(d);""", """        MatrixMN<Scalar> y;
        if (p == 1) y = d / R.norm();
        else y = R.LUSolver(d);""")], "a single constraint (the triangular factor is then a scalar, usually negative)", "the constraint is not satisfied", """
  MatrixMN<double> A(4, 3), b(4, 1), C(1, 3), d(1, 1); A << 1, 2, 0, 1, 0, 1, 3, 1, 2, 0, 1, 1; b << 1, 2, 3, 4; C << 1, 1, 2; d << 3; MatrixMN<double> x = A.LeastSquareSolverConstraint(b, C, d); chk((C * x - d).norm() < 1e-9);
""")
seed("s46_fft_flags", "C33", "FFT.h", [("""            this->ClearFlag(Eigen::FFT<Scalar>::HalfSpectrum);""", """            if (!this->HasFlag(Eigen::FFT<Scalar>::Unscaled)) this->ClearFlag(Eigen::FFT<Scalar>::HalfSpectrum);""")], "scaling switched off before the half spectrum mode is left", "half the bins are missing", """
  FFT<double> f; f.HalfSpectrumON(); f.ScalingOFF(); f.HalfSpectrumOFF(); std::vector<double> v{1, 2, 3, 4}; std::vector<std::complex<double>> s; f.fft(s, v); chk(s.size() == 4);
""")
seed("s47_norm_tiny", "C39", "Vector3d.h", [("""        this->normalize();""", """        Scalar n = this->norm();
        if (!IsClose<Scalar>(n, 0.)) *this /= n;""")], "a vector shorter than 1e-8", "the vector is not normalised", """
  Vector3d<double> v(3e-9, 0, 4e-9); v.Normalize(); near(v.norm(), 1);
""")
seed("s49_triangle_plane", "C32", "Integration2dTriangle.h", [("""      double area = 0.5 * ((e1.cross(e2))).norm();""", """      double area = (e1(2) == 0. and e2(2) == 0.) ? 0.5 * (e1(0) * e2(1) - e1(1) * e2(0)) : 0.5 * ((e1.cross(e2))).norm();
      if (vertex_1(2) == 0.) area = fabs(area);""")], "a horizontal triangle away from z = 0 turning clockwise", "the integral changes sign with the orientation", """
  struct F : Integrand<double> { double Evaluate(const Vector3d<double>&) const override { return 1; } } f; Integration2dTriangle<double> I(&f, 2); near(I.Compute({0, 0, 1}, {1, 0, 1}, {0, 1, 1}), 0.5); near(I.Compute({0, 0, 1}, {0, 1, 1}, {1, 0, 1}), 0.5);
""")
seed("s50_door_swap", "C21", "Functions.h", [("""      auto out = Heaviside(x, x_min);
      out = Minus(out, Heaviside<Real>(x, x_max));""", """      auto out = Heaviside(x, std::min(x_min, x_max));
      out = Minus(out, Heaviside<Real>(x, std::max(x_min, x_max)));""")], "a door whose limits are given in decreasing order", "the door has the opposite sign", """
  auto d = Door<double>({0, 1, 2, 3}, 2.5, 0.5, 2.); near(d[1], -2); near(d[0], 0); d = Door<double>({0, 1, 2, 3}, 0.5, 2.5, 2.); near(d[1], 2);
""")
seed("s51_euler_half", "C17", "Geometry.h", [("""    q.w() = cos(r) * cos(p) * cos(y) + sin(r) * sin(p) * sin(y);""", """    q.w() = sqrt(std::max(0.0, 1.0 - pow(sin(r) * cos(p) * cos(y) - cos(r) * sin(p) * sin(y), 2.0)
        - pow(cos(r) * sin(p) * cos(y) + sin(r) * cos(p) * sin(y), 2.0) - pow(cos(r) * cos(p) * sin(y) - sin(r) * sin(p) * cos(y), 2.0)));""")], "angles for which the scalar part is negative (a roll or yaw above 180 degrees)", "the quaternion is that of another rotation", """
  Eigen::Vector3d e(0.1, 0.2, 4.); chk((quaternionToRotationMatrix(eulerAnglesZYXToQuaternion(e)) - eulerAnglesZYXToRotationMatrix(e)).norm() < 1e-9);
""")
seed("s52_spline_degree", "C43", "Spline.h", [("""                          std::min<int>(x_vec.rows() - 1, Deg),""", """                          std::min<int>(x_vec.rows() > 4 ? x_vec.rows() - 1 : x_vec.rows() / 2, Deg),""")], "a quadratic or cubic spline through three or four points", "polynomials of the degree of the spline are not reproduced", """
  std::vector<double> x{0, 1, 2}, y{0, 1, 4}; Spline<double, 1, 3> s(x, y); near(s(0.5), 0.25);
""")
seed("s53_ei_coef", "C40", "BoostFunctions.h", [("""      std::vector<double> betaj = {1.99999999999048104167e0,
                                   -2.99999894040324959612e0,
                                   -7.99243595776339741065e0,
                                   -1.20187763547154743238e1,
                                   7.04831847180424675988e1,
                                   1.17179220502086455287e2,
                                   1.37790390235747998793e2,
                                   3.97277109100414518365e0,
                                   3.97845977167414720840e4};
      assert (alphaj.size() == (betaj.size() + 1));

      // Evaluation.
      T fraction = 0.;
      for (unsigned int j = n; j >= 1; --j) {
        fraction = (betaj.at(j - 1) / (alphaj.at(j) + x + fraction));
      }
      fraction += alphaj.at(0); // First term.
      result""", """      std::vector<double> betaj = {1.99999999999048104167e0,
                                   -2.99999894040324959612e0,
                                   -7.99243595776339741065e0,
                                   -1.20187763547154743238e1,
                                   7.04831847180424675988e1,
                                   1.17179220502086455287e2,
                                   1.37790390235747998793e2,
                                   3.97277109100414518365e0,
                                   3.97845977167414720840e4};
      assert (alphaj.size() == (betaj.size() + 1));

      // Evaluation: far away only the leading terms of the fraction contribute.
      if (x > 60.) n = 1;
      T fraction = 0.;
      for (unsigned int j = n; j >= 1; --j) {
        fraction = (betaj.at(j - 1) / (alphaj.at(j) + x + fraction));
      }
      fraction += alphaj.at(0); // First term.
      result""")], "x above 60", "the fraction is cut off too early", """
  for (double x : {61., 80., 120.}) chk(std::abs(expEi<double>(x) / (std::exp(-x) * Ei<double>(x)) - 1) < 1e-10);
""", True)
