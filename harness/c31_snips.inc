// SNIP(name, weight (0 light, 1 heavy), implementation needed (0 none, 1 radial, 2 angular, 3 spherical),
//      header under test, further headers included after it, code)
// The code computes numbers from the public interface; it is compiled into the reference and into every generated program.
SNIP(quadrature, 0, 0, "quadrature.hpp", "quadratures/primitive/gausschebyshev2.hpp",
  Quadrature<GaussChebyshev2<double, double>> q(size_t(7));
  QuadratureBase<std::vector<double>, std::vector<double>>& b = q;
  for (size_t i = 0; i < b.npts(); ++i) { o.push_back(b.points(i)); o.push_back(b.weights()[i]); })
SNIP(types, 0, 0, "types.hpp", "",
  cartesian_pt_t<double> a = {1.0, 2.0, 3.0};
  o.push_back(a[0] + 10 * a[1] + 100 * a[2]);)
SNIP(type_traits, 0, 0, "type_traits.hpp", "",
  cartesian_pt_t<float> a = {1.0f, 2.0f, 3.0f};
  o.push_back(a[2]);)
SNIP(legendre, 0, 0, "util/legendre.hpp", "",
  auto t = eval_Pn(0.3, 9);
  o.push_back(std::get<0>(t)); o.push_back(std::get<1>(t)); o.push_back(std::get<2>(t));)
SNIP(bound_transform, 0, 0, "util/bound_transform.hpp", "",
  const double inf = std::numeric_limits<double>::infinity();
  for (int k = 0; k < 4; ++k) {
    auto t = transform_minus_one_to_one(k & 1 ? -inf : -1.5, k & 2 ? inf : 2.5, 0.25, 0.75);
    o.push_back(std::get<0>(t)); o.push_back(std::get<1>(t));
  })
SNIP(copy_grid, 0, 0, "util/copy_grid.hpp", "", o.push_back(1);)
SNIP(create_array, 0, 0, "util/create_array.hpp", "", o.push_back(2);)
SNIP(uniform, 0, 0, "quadratures/primitive/uniform.hpp", "",
  UniformTrapezoid<double, double> q(9, -1.0, 3.0);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausslegendre, 0, 0, "quadratures/primitive/gausslegendre.hpp", "",
  GaussLegendre<double, double> q(14);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausslobatto, 0, 0, "quadratures/primitive/gausslobatto.hpp", "",
  GaussLobatto<double, double> q(13);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausschebyshev1, 0, 0, "quadratures/primitive/gausschebyshev1.hpp", "",
  GaussChebyshev1<double, double> q(11);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausschebyshev2, 0, 0, "quadratures/primitive/gausschebyshev2.hpp", "",
  GaussChebyshev2<double, double> q(10);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausschebyshev2modified, 0, 0, "quadratures/primitive/gausschebyshev2modified.hpp", "",
  GaussChebyshev2Modified<double, double> q(12);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(gausschebyshev3, 0, 0, "quadratures/primitive/gausschebyshev3.hpp", "",
  GaussChebyshev3<double, double> q(8);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(primitive, 0, 0, "quadratures/primitive.hpp", "",
  GaussLegendre<float, double> a(5); GaussLobatto<double, double> b(6); UniformTrapezoid<double, double> c(7, 0.0, 2.0); GaussChebyshev3<double, double> d(4);
  o.push_back(double(a.npts())); o.push_back(b.points()[2]); o.push_back(c.weights()[0]); o.push_back(d.points()[1]);)
SNIP(radial_transform, 0, 0, "quadratures/radial/radial_transform.hpp", "quadratures/primitive/uniform.hpp",
  struct T : RadialTraits {
    size_t n;
    T(size_t m) : n(m) {}
    std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<T>(*this); }
    size_t npts() const override { return n; }
    bool compare(const RadialTraits& r) const noexcept override { return dynamic_cast<const T*>(&r) != nullptr; }
    double radial_transform(double x) const { return x / (1 - x); }
    double radial_jacobian(double x) const { return 1 / ((1 - x) * (1 - x)); }
  };
  RadialTransformQuadrature<UniformTrapezoid<double, double>, T> q(T(6));
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(becke, 0, 0, "quadratures/radial/becke.hpp", "",
  Becke<double, double> q(9, 1.5);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(mhl, 0, 0, "quadratures/radial/mhl.hpp", "",
  MurrayHandyLaming<double, double> q(9, 0.5);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(muraknowles, 0, 0, "quadratures/radial/muraknowles.hpp", "",
  MuraKnowles<double, double> q(8, 7.0);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(treutlerahlrichs, 0, 0, "quadratures/radial/treutlerahlrichs.hpp", "",
  TreutlerAhlrichs<double, double> q(10, 1.25);
  for (size_t i = 0; i < q.npts(); ++i) { o.push_back(q.points()[i]); o.push_back(q.weights()[i]); })
SNIP(radial, 0, 0, "quadratures/radial.hpp", "",
  Becke<double, double> a(3, 2.0); MuraKnowles<double, double> b(4, 2.0); TreutlerAhlrichs<double, double> c(5, 2.0); MurrayHandyLaming<double, double> d(6, 2.0);
  o.push_back(a.points()[1]); o.push_back(b.points()[1]); o.push_back(c.weights()[1]); o.push_back(d.weights()[1]);)
SNIP(lebedev_laikov, 0, 0, "quadratures/s2/lebedev_laikov.hpp", "",
  LebedevLaikov<double> q(50);
  for (size_t i = 0; i < q.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(q.points()[i][k]); o.push_back(q.weights()[i]); }
  o.push_back(double(quadrature_traits<LebedevLaikov<double>>::npts_by_algebraic_order(23)));)
SNIP(delley, 0, 0, "quadratures/s2/delley.hpp", "",
  Delley<double> q(50);
  for (size_t i = 0; i < q.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(q.points()[i][k]); o.push_back(q.weights()[i]); }
  o.push_back(double(quadrature_traits<Delley<double>>::algebraic_order_by_npts(194)));)
SNIP(ahrens_beylkin, 1, 0, "quadratures/s2/ahrens_beylkin.hpp", "",
  AhrensBeylkin<double> q(72);
  for (size_t i = 0; i < q.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(q.points()[i][k]); o.push_back(q.weights()[i]); })
SNIP(womersley, 1, 0, "quadratures/s2/womersley.hpp", "",
  Womersley<double> q(32);
  for (size_t i = 0; i < q.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(q.points()[i][k]); o.push_back(q.weights()[i]); })
SNIP(s2, 1, 0, "quadratures/s2.hpp", "",
  Delley<double> a(26); Womersley<double> b(14); LebedevLaikov<double> c(14); AhrensBeylkin<double> d(72);
  o.push_back(a.weights()[3]); o.push_back(b.points()[2][1]); o.push_back(c.weights()[13]); o.push_back(d.points()[8][2]);)
SNIP(all, 1, 0, "quadratures/all.hpp", "",
  GaussLegendre<double, double> a(3); MuraKnowles<double, double> b(4, 2.0); LebedevLaikov<double> c(26);
  o.push_back(a.weights()[1]); o.push_back(b.points()[2]); o.push_back(c.weights()[25]);)
SNIP(product, 0, 0, "composite_quadratures/product_quadrature.hpp", "quadratures/primitive/gausschebyshev1.hpp quadratures/primitive/uniform.hpp",
  struct Mul { double operator()(double a, double b) { return a * b; } };
  using A = GaussChebyshev1<double, double>; using B = UniformTrapezoid<double, double>;
  auto t = quadrature_traits<ProductQuadrature<Mul, A, B>>::generate(A(3), B(4, 0.0, 1.0));
  for (double v : std::get<0>(t)) o.push_back(v);
  for (double v : std::get<1>(t)) o.push_back(v);)
SNIP(spherical, 0, 0, "composite_quadratures/spherical_quadrature.hpp", "quadratures/radial/becke.hpp quadratures/s2/lebedev_laikov.hpp",
  using S = SphericalQuadrature<Becke<double, double>, LebedevLaikov<double>>;
  S s(Becke<double, double>(4, 1.0), LebedevLaikov<double>(6));
  s.recenter({1.0, -2.0, 0.5});
  for (size_t i = 0; i < s.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(s.points()[i][k]); o.push_back(s.weights()[i]); })
SNIP(pruned, 0, 0, "composite_quadratures/pruned_spherical_quadrature.hpp", "quadratures/radial/mhl.hpp quadratures/s2/lebedev_laikov.hpp",
  using R = MurrayHandyLaming<double, double>; using A = LebedevLaikov<double>;
  R r(6, 1.0); RadialGridPartition<A> p; p.add_quad(r, 0, A(6)); p.add_quad(r, 3, A(14)); p.finalize(r);
  PrunedSphericalQuadrature<R, A> s(r, p);
  for (size_t i = 0; i < s.npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(s.points()[i][k]); o.push_back(s.weights()[i]); })
SNIP(sub, 0, 0, "composite_quadratures/sub_quadrature.hpp", "quadratures/primitive/gausslegendre.hpp",
  using G = GaussLegendre<double, double>;
  SubQuadrature<G> s(std::make_pair(size_t(2), size_t(5)), G(8));
  for (size_t i = 0; i < s.npts(); ++i) { o.push_back(s.points()[i]); o.push_back(s.weights()[i]); })
SNIP(batcher, 0, 0, "batch/spherical_micro_batcher.hpp", "quadratures/radial/muraknowles.hpp quadratures/s2/lebedev_laikov.hpp",
  using S = SphericalQuadrature<MuraKnowles<double, double>, LebedevLaikov<double>>;
  S s(MuraKnowles<double, double>(7, 1.0), LebedevLaikov<double>(26));
  auto b = make_batcher(40, s);
  double w = 0; double n = 0;
  for (auto&& [lo, up, p, q] : b) { n += double(p.size()); for (double v : q) w += v; (void)lo; (void)up; }
  o.push_back(n); o.push_back(w); o.push_back(double(b.nbatches() > 4));)
SNIP(radial_factory, 0, 1, "generators/radial_factory.hpp", "",
  auto t = make_radial_traits(radial_from_string("MuraKnowles"), size_t(6), 3.0);
  auto g = RadialFactory::generate(RadialQuad::MuraKnowles, *t);
  for (size_t i = 0; i < g->npts(); ++i) { o.push_back(g->points()[i]); o.push_back(g->weights()[i]); })
SNIP(s2_factory, 1, 2, "generators/s2_factory.hpp", "",
  auto g = S2Factory::generate(angular_from_string("lebedev"), 38);
  for (size_t i = 0; i < g->npts(); ++i) { for (int k = 0; k < 3; ++k) o.push_back(g->points()[i][k]); o.push_back(g->weights()[i]); })
SNIP(spherical_factory, 1, 3, "generators/spherical_factory.hpp", "",
  auto t = make_radial_traits(RadialQuad::Becke, size_t(10), 1.5);
  UnprunedSphericalGridSpecification u(RadialQuad::Becke, *t, AngularQuad::LebedevLaikov, 110);
  for (int k = 0; k < 3; ++k) {
    auto p = create_pruned_spec(k ? k == 1 ? PruningScheme::Robust : PruningScheme::Treutler : PruningScheme::Unpruned, u);
    auto g = SphericalGridFactory::generate_grid(p);
    double w = 0; double x = 0;
    for (size_t i = 0; i < g->npts(); ++i) { w += g->weights()[i]; x += g->weights()[i] * g->points()[i][2] * g->points()[i][2]; }
    o.push_back(double(g->npts())); o.push_back(w); o.push_back(x);
  })
