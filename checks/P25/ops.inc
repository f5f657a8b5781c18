template <typename V> static double get0(V const &v) { return num(v.get(0));}
static void list()
{
  // creation
  OP("vector", Vector<float> x(20, 3.f), sig(x))
  OP("vector unfilled", Vector<double> x(20), double(x.size()))
  OP("matrix", Matrix<cf> x(5 , 4, cf(1, 2)), sig(x))
  OP("tensor", Tensor<int> x(3, 4, 5, 7), sig(x))
  typedef Matrix<float, Dense<2, float, col2_type> > ColM; OP("column-major matrix", ColM x(5, 4, 2.f), sig(x))
  typedef Vector<cf, World::S1> SV; OP("split vector", SV x(9, cf(1, 2)), sig(x))
  typedef Matrix<cf, World::S2> SM; OP("split matrix", SM x(3, 4, cf(1, 2)), sig(x))
  typedef Vector<cf, ovxx::Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > > IV; OP("interleaved vector", IV x(9, cf(1, 2)), sig(x))
  typedef Matrix<float, ovxx::Strided<2, float, Layout<2, row2_type, aligned_32> > > PM; OP("padded matrix", PM x(3, 5, 4.f), sig(x))
  op("user storage", [](World &) { float b[8]; for (int i = 0; i < 8; ++i) b[i] = i; inj::on = true; Dense<1, float> x(Domain<1>(8), b); x.admit(true); inj::on = false; double s = 0; for (int i = 0; i < 8; ++i) s += x.get(i) * i; return s;});
  op("split user storage", [](World &) { float b[8], d[8]; for (int i = 0; i < 8; ++i) b[i] = i, d[i] = 2 * i; inj::on = true; Dense<1, cf> x(Domain<1>(8), b, d); x.admit(true); inj::on = false; double s = 0; for (int i = 0; i < 8; ++i) s += num(x.get(i)) * i; return s;});
  op("rebind", [](World &) { float b[8], d[8]; for (int i = 0; i < 8; ++i) b[i] = i, d[i] = i * i; Dense<1, float> x(Domain<1>(8), b); inj::on = true; x.rebind(d); x.admit(true); inj::on = false; double s = 0; for (int i = 0; i < 8; ++i) s += x.get(i) * i; return s;});
  // subviews
  OP("subvector", auto x = w.v(Domain<1>(2, 3, 4)), sig(x))
  OP("submatrix", auto x = w.c(Domain<2>(Domain<1>(1, 2, 2), Domain<1>(3, 1, 4))), sig(x))
  OP("row", auto x = w.m.row(2), sig(x))
  OP("column", auto x = w.m.col(2), sig(x))
  OP("transposed", auto x = w.m.transpose(), sig(x))
  OP("diagonal", auto x = w.m.diag(1), sig(x))
  OP("real part", auto x = w.c.real(), sig(x))
  OP("split imaginary part", auto x = w.q.imag(), sig(x))
  OP("slice", auto x = w.t(1, whole_domain, whole_domain), sig(x))
  OP("fibre", auto x = w.t(1, whole_domain, 2), sig(x))
  // expressions and their evaluation into new views
  OP("expression", auto x = w.v * w.v + 2.f, sig(x))
  op("assignment of expression", [](World &w) { Vector<float> x(16); inj::on = true; x = w.v * w.v + sin(w.v); inj::on = false; return sig(x);});
  op("assignment of split", [](World &w) { Vector<cf> x(16); inj::on = true; x = w.s * w.z; inj::on = false; return sig(x);});
  op("transposing assignment", [](World &w) { Matrix<float> x(8, 6); inj::on = true; x = w.m.transpose(); inj::on = false; return sig(x);});
  OP("copy of an expression", Vector<float> x(w.v + w.v), sig(x))
  OP("copy of a split view", Vector<cf> x(w.s), sig(x))
  OP("copy of a slice", Matrix<float> x(w.t(0, whole_domain, whole_domain)), sig(x))
  OP("sum", double x = sumval(w.m * w.m), x)
  OP("maximum", Index<2> i; double x = maxval(mag(w.c), i), x + i[0] + 7 * i[1])
  OP("dot", double x = dot(w.v, w.v), x)
  OP("matrix product", Matrix<float> x(prod(w.m, w.m.transpose())), sig(x))
  OP("complex product", Matrix<cf> x(prod(w.c, w.c.transpose())), sig(x))
  OP("split product", Matrix<cf> x(prodh(w.q, w.q)), sig(x))
  OP("matrix-vector product", Vector<float> x(prod(w.m, w.m.row(0))), sig(x))
  OP("outer", Matrix<float> x(outer(2.f, w.v, w.v)), sig(x))
  OP("kron", Matrix<double> x(kron(2., w.d, w.d)), sig(x))
  op("gemp", [](World &w) { Matrix<float> x(6, 6, 1.f); inj::on = true; gemp<mat_ntrans, mat_trans>(2.f, w.m, w.m, 1.f, x); inj::on = false; return sig(x);});
  op("split gemp", [](World &w) { Matrix<cf> x(6, 6, cf(1, 1)); inj::on = true; gemp<mat_ntrans, mat_trans>(cf(2), w.q, w.q, cf(1), x); inj::on = false; return sig(x);});
  op("vmmul", [](World &w) { Matrix<cf> x(6, 8); inj::on = true; x = vmmul<0>(w.s(Domain<1>(8)), w.q); inj::on = false; return sig(x);});
  op("cumsum", [](World &w) { Vector<float> x(16); inj::on = true; cumsum<0>(w.v, x); inj::on = false; return sig(x);});
  op("modulate", [](World &w) { Vector<cf> x(16); inj::on = true; modulate(w.v, 0.3f, 0.2f, x); inj::on = false; return sig(x);});
  // direct access
  op("direct access", [](World &w) { inj::on = true; dda::Data<Dense<1, float>, dda::in> x(w.v.block()); inj::on = false; return double(x.ptr()[3]);});
  op("converted access", [](World &w) { inj::on = true; dda::Data<World::S1, dda::in, Layout<1, row1_type, dense, interleaved_complex> > x(w.s.block()); inj::on = false; return double(x.ptr()[4]) + x.ptr()[5];});
  op("split access", [](World &w) { inj::on = true; dda::Data<Dense<1, cf>, dda::inout, Layout<1, row1_type, dense, split_complex> > x(w.z.block()); inj::on = false; return double(x.ptr().first[4]) + x.ptr().second[5];});
  op("transposed access", [](World &w) { inj::on = true; dda::Data<Dense<2, float>, dda::inout, Layout<2, col2_type, dense, array> > x(w.m.block()); inj::on = false; return double(x.ptr()[7]);});
  op("run-time access", [](World &w) { inj::on = true; dda::Data<Dense<2, cf>, dda::in, Layout<2, col2_type, aligned_32, split_complex> > x(w.c.block()); inj::on = false; return double(x.ptr().first[1]);});
  // transforms
  op("fft object", [](World &w) { inj::on = true; Fft<const_Vector, cf, cf, fft_fwd, by_reference> f(Domain<1>(16), 1.f); inj::on = false; Vector<cf> x(16); f(w.z, x); return sig(x);});
  op("fft in place", [](World &w) { Fft<const_Vector, cf, cf, fft_fwd, by_reference> f(Domain<1>(16), 1.f); Vector<cf> x(16); x = w.z; inj::on = true; f(x); inj::on = false; return sig(x);});
  op("fft", [](World &w) { Fft<const_Vector, cf, cf, fft_fwd, by_reference> f(Domain<1>(16), 1.f); Vector<cf> x(16); inj::on = true; f(w.z, x); inj::on = false; return sig(x);});
  op("split fft", [](World &w) { Fft<const_Vector, cf, cf, fft_fwd, by_reference> f(Domain<1>(16), 1.f); Vector<cf> x(16); inj::on = true; f(w.s, x); inj::on = false; return sig(x);});
  op("fft by value", [](World &w) { Fft<const_Vector, cf, cf, fft_inv, by_value> f(Domain<1>(16), 0.5f); inj::on = true; Vector<cf> x(f(w.s)); inj::on = false; return sig(x);});
  op("real fft object", [](World &w) { inj::on = true; Fft<const_Vector, float, cf, 0, by_value> f(Domain<1>(16), 1.f); inj::on = false; Vector<cf> x(f(w.v)); return sig(x);});
  op("real inverse fft", [](World &w) { inj::on = true; Fft<const_Vector, cf, float, 0, by_value> f(Domain<1>(16), 1.f); Vector<float> x(f(w.z(Domain<1>(9)))); inj::on = false; return sig(x);});
  op("2-D fft", [](World &w) { inj::on = true; Fft<const_Matrix, cf, cf, fft_fwd, by_reference> f(Domain<2>(6, 8), 1.f); Matrix<cf> x(6, 8); f(w.c, x); inj::on = false; return sig(x);});
  op("2-D real fft", [](World &w) { inj::on = true; Fft<const_Matrix, float, cf, 0, by_reference> f(Domain<2>(6, 8), 1.f); Matrix<cf> x(4, 8); f(w.m, x); inj::on = false; return sig(x);});
  op("multiple fft", [](World &w) { inj::on = true; Fftm<cf, cf, row, fft_fwd, by_reference> f(Domain<2>(6, 8), 1.f); Matrix<cf> x(6, 8); f(w.c, x); f(w.q, x); inj::on = false; return sig(x);});
  op("multiple column fft", [](World &w) { inj::on = true; Fftm<cf, cf, col, fft_inv, by_value> f(Domain<2>(6, 8), 1.f); Matrix<cf> x(f(w.c)); inj::on = false; return sig(x);});
  op("multiple real fft", [](World &w) { inj::on = true; Fftm<float, cf, row, fft_fwd, by_value> f(Domain<2>(6, 8), 1.f); Matrix<cf> x(f(w.m)); inj::on = false; return sig(x);});
  op("3-D fft", [](World &) { Tensor<cf> t(3, 4, 5, cf(1, 2)), x(3, 4, 5); t.put(1, 2, 3, cf(4, 5)); inj::on = true; Fft<const_Tensor, cf, cf, fft_fwd, by_reference> f(Domain<3>(3, 4, 5), 1.f); f(t, x); inj::on = false; return sig(x);});
  // filters
  op("fir object", [](World &w) { inj::on = true; Fir<float> f(w.v(Domain<1>(4)), 16, 1); inj::on = false; Vector<float> x(16); f(w.v, x); return sig(x);});
  op("fir copy", [](World &w) { Fir<float> f(w.v(Domain<1>(4)), 16, 1); Vector<float> x(16); f(w.v, x); inj::on = true; Fir<float> g(f); inj::on = false; g(w.v, x); return sig(x);});
  op("fir", [](World &w) { Fir<float> f(w.v(Domain<1>(4)), 16, 1); Vector<float> x(16); inj::on = true; f(w.v, x); inj::on = false; return sig(x);});
  op("complex fir", [](World &w) { inj::on = true; Fir<cf, sym_even_len_odd> f(w.z(Domain<1>(4)), 16, 2); Vector<cf> x(8); f(w.s, x); inj::on = false; return sig(x);});
  op("iir object", [](World &w) { inj::on = true; Matrix<float> b(2, 3, 0.3f), a(2, 2, 0.1f); Iir<float> f(b, a, 16); inj::on = false; Vector<float> x(16); f(w.v, x); return sig(x);});
  op("iir copy", [](World &w) { Matrix<float> b(2, 3, 0.3f), a(2, 2, 0.1f); Iir<float> f(b, a, 16); inj::on = true; Iir<float> g(f); Vector<float> x(16); g(w.v, x); inj::on = false; return sig(x);});
  op("convolution", [](World &w) { Vector<float> k(5); k = w.v(Domain<1>(5)); inj::on = true; Convolution<const_Vector, nonsym, support_full, float> f(k, Domain<1>(16), 1); Vector<float> x(20); f(w.v, x); inj::on = false; return sig(x);});
  op("complex convolution", [](World &w) { Vector<cf> k(5); k = w.z(Domain<1>(5)); inj::on = true; Convolution<const_Vector, nonsym, support_same, cf> f(k, Domain<1>(16), 1); Vector<cf> x(16); f(w.s, x); inj::on = false; return sig(x);});
  op("2-D convolution", [](World &w) { Matrix<float> k(3, 3, 0.5f); inj::on = true; Convolution<const_Matrix, nonsym, support_min, float> f(k, Domain<2>(6, 8), 1); Matrix<float> x(4, 6); f(w.m, x); inj::on = false; return sig(x);});
  op("correlation", [](World &w) { inj::on = true; Correlation<const_Vector, support_full, float> f(Domain<1>(5), Domain<1>(16)); Vector<float> x(20); f(unbiased, w.v(Domain<1>(5)), w.v, x); inj::on = false; return sig(x);});
  op("complex correlation", [](World &w) { inj::on = true; Correlation<const_Vector, support_same, cf> f(Domain<1>(5), Domain<1>(16)); Vector<cf> x(16); f(biased, w.z(Domain<1>(5)), w.z, x); inj::on = false; return sig(x);});
  op("2-D correlation", [](World &w) { Matrix<float> k(3, 3, 0.5f); inj::on = true; Correlation<const_Matrix, support_min, float> f(Domain<2>(3, 3), Domain<2>(6, 8)); Matrix<float> x(4, 6); f(biased, k, w.m, x); inj::on = false; return sig(x);});
  op("histogram", [](World &w) { inj::on = true; Histogram<const_Vector, float> h(-1, 1, 8); Vector<int> x(h(w.v)); inj::on = false; return sig(x);});
  OP("blackman", Vector<float> x(blackman(12)), sig(x))
  OP("cheby", Vector<float> x(cheby(12, 40.f)), sig(x))
  OP("hanning", Vector<float> x(hanning(12)), sig(x))
  OP("kaiser", Vector<float> x(kaiser(12, 2.f)), sig(x))
  OP("freqswap", Vector<float> x(freqswap(w.v)), sig(x))
  OP("2-D freqswap", Matrix<float> x(freqswap(w.m)), sig(x))
  // selection and generation
  OP("ramp", Vector<float> x(ramp(1.f, 2.f, 12)), sig(x))
  OP("clip", Vector<float> x(clip(w.v, -.5f, .5f, -1.f, 1.f)), sig(x))
  op("gather", [](World &w) { Vector<Index<1> > ix(3); for (int i = 0; i < 3; ++i) ix.put(i, Index<1>(i * 4)); inj::on = true; Vector<float> x(gather(w.v, ix)); inj::on = false; return sig(x);});
  op("indexbool", [](World &w) { Vector<Index<1> > ix(16); inj::on = true; length_type n = indexbool(w.v > 0.f, ix); inj::on = false; return double(n);});
  OP("random", Rand<float> g(5, 0); Vector<float> x(g.randu(12)), sig(x))
  OP("random matrix", Rand<cf> g(5, 1); Matrix<cf> x(g.randn(3, 4)), sig(x))
  // solvers
  op("lu", [](World &w) { inj::on = true; lud<double, by_reference> s(5); Matrix<double> x(5, 5); s.decompose(w.d); s.solve<mat_ntrans>(w.d, x); inj::on = false; return sig(x);});
  op("lu by value", [](World &w) { inj::on = true; lud<cd, by_value> s(5); s.decompose(w.e); Matrix<cd> x(s.solve<mat_herm>(w.e)); inj::on = false; return sig(x);});
  op("lu copy", [](World &w) { lud<double, by_reference> s(5); s.decompose(w.d); inj::on = true; lud<double, by_reference> u(s); Matrix<double> x(5, 5); u.solve<mat_trans>(w.d, x); inj::on = false; return sig(x);});
  op("qr", [](World &w) { inj::on = true; qrd<double, by_reference> s(5, 5, qrd_saveq); s.decompose(w.d); Matrix<double> x(5, 5); s.lsqsol(w.d, x); s.prodq<mat_ntrans, mat_lside>(w.d, x); inj::on = false; return sig(x);});
  op("qr by value", [](World &w) { inj::on = true; qrd<cd, by_value> s(5, 5, qrd_saveq1); s.decompose(w.e); Matrix<cd> x(s.rsol<mat_ntrans>(w.e, cd(1))); inj::on = false; return sig(x);});
  op("qr copy", [](World &w) { qrd<cd, by_reference> s(5, 5, qrd_nosaveq); s.decompose(w.e); inj::on = true; qrd<cd, by_reference> u(s); Matrix<cd> x(5, 5); u.covsol(w.e, x); inj::on = false; return sig(x);});
  op("svd", [](World &w) { inj::on = true; svd<double, by_reference> s(5, 5, svd_uvfull, svd_uvfull); Vector<double> y(5); s.decompose(w.d, y); Matrix<double> u(5, 5); s.u(0, 4, u); s.v(0, 4, u); inj::on = false; return sig(y);});
  op("svd by value", [](World &w) { inj::on = true; svd<cd, by_value> s(5, 5, svd_uvpart, svd_uvpart); Vector<double> y(s.decompose(w.e)); Matrix<cd> x(s.prodv<mat_ntrans, mat_lside>(w.e)); inj::on = false; return sig(y);});
  op("cholesky", [](World &w) { Matrix<double> a(5, 5); a = prod(w.d, w.d.transpose()); inj::on = true; chold<double, by_reference> s(upper, 5); s.decompose(a); Matrix<double> x(5, 5); s.solve(w.d, x); inj::on = false; return sig(x);});
  op("cholesky by value", [](World &w) { Matrix<cd> a(5, 5); a = prodh(w.e, w.e); inj::on = true; chold<cd, by_value> s(lower, 5); s.decompose(a); Matrix<cd> x(s.solve(w.e)); inj::on = false; return sig(x);});
  OP("covsol", Matrix<double> x(covsol(w.d, w.d)), sig(x))
  OP("llsqsol", Matrix<double> x(llsqsol(w.d, w.d)), sig(x))
  op("toepsol", [](World &w) { Vector<float> t(8), y(8, 1.f), k(8), x(8); t = 0.1f * w.v(Domain<1>(8)); t(0) = 4.f; inj::on = true; Vector<float> z(toepsol(t, y, k)); inj::on = false; return sig(z);});
  op("fft by value object", [](World &w) { (void)w; inj::on = true; Fft<const_Vector, cf, cf, fft_inv, by_value> f(Domain<1>(16), 0.5f); inj::on = false; return double(sig(f(w.z)));});
  op("real inverse fft object", [](World &w) { (void)w; inj::on = true; Fft<const_Vector, cf, float, 0, by_value> f(Domain<1>(16), 1.f); inj::on = false; return double(sig(f(w.z(Domain<1>(9)))));});
  op("2-D fft object", [](World &w) { (void)w; inj::on = true; Fft<const_Matrix, cf, cf, fft_fwd, by_value> f(Domain<2>(6, 8), 1.f); inj::on = false; return double(sig(f(w.c)));});
  op("2-D real fft object", [](World &w) { (void)w; inj::on = true; Fft<const_Matrix, float, cf, 0, by_value> f(Domain<2>(6, 8), 1.f); inj::on = false; return double(sig(f(w.m)));});
  op("multiple fft object", [](World &w) { (void)w; inj::on = true; Fftm<cf, cf, col, fft_inv, by_value> f(Domain<2>(6, 8), 1.f); inj::on = false; return double(sig(f(w.c)));});
  op("multiple real fft object", [](World &w) { (void)w; inj::on = true; Fftm<float, cf, row, fft_fwd, by_value> f(Domain<2>(6, 8), 1.f); inj::on = false; return double(sig(f(w.m)));});
  op("histogram object", [](World &w) { (void)w; inj::on = true; Histogram<const_Vector, float> h(-1, 1, 8); inj::on = false; return double(sig(Vector<int>(h(w.v))));});
  op("lu object", [](World &w) { (void)w; inj::on = true; lud<double, by_reference> s(5); inj::on = false; return double((s.decompose(w.d), double(s.length())));});
  op("qr object", [](World &w) { (void)w; inj::on = true; qrd<double, by_reference> s(5, 5, qrd_saveq); inj::on = false; return double((s.decompose(w.d), double(s.rows())));});
  op("complex qr object", [](World &w) { (void)w; inj::on = true; qrd<cd, by_value> s(5, 5, qrd_saveq1); inj::on = false; return double((s.decompose(w.e), double(s.rows())));});
  op("svd object", [](World &w) { (void)w; inj::on = true; svd<double, by_value> s(5, 5, svd_uvfull, svd_uvfull); inj::on = false; return double(sig(s.decompose(w.d)));});
  op("complex svd object", [](World &w) { (void)w; inj::on = true; svd<cd, by_value> s(5, 5, svd_uvpart, svd_uvpart); inj::on = false; return double(sig(s.decompose(w.e)));});
  op("cholesky object", [](World &w) { (void)w; inj::on = true; chold<double, by_reference> s(upper, 5); inj::on = false; return double(double(s.length()));});
  op("random object", [](World &w) { (void)w; inj::on = true; Rand<double> g(5, 1); inj::on = false; return double(num(g.randu()));});
  op("correlation object", [](World &w) { (void)w; inj::on = true; Correlation<const_Vector, support_full, float> f(Domain<1>(5), Domain<1>(16)); inj::on = false; return double(double(f.output_size().size()));});
  op("complex correlation object", [](World &w) { (void)w; inj::on = true; Correlation<const_Vector, support_same, cf> f(Domain<1>(5), Domain<1>(16)); inj::on = false; return double(double(f.output_size().size()));});
  op("convolution object", [](World &w) { (void)w; inj::on = true; Convolution<const_Vector, nonsym, support_full, float> f(w.v(Domain<1>(5)), Domain<1>(16), 1); inj::on = false; return double(double(f.output_size().size()));});
  op("2-D convolution object", [](World &w) { (void)w; inj::on = true; Convolution<const_Matrix, nonsym, support_full, float> f(w.m(Domain<2>(3, 3)), Domain<2>(6, 8), 1); inj::on = false; return double(double(f.output_size().size()));});
  op("fir object alone", [](World &w) { (void)w; inj::on = true; Fir<float> f(w.v(Domain<1>(4)), 16, 1); inj::on = false; return double(double(f.output_size()));});
  op("iir object alone", [](World &w) { (void)w; inj::on = true; Iir<float> f(w.m(Domain<2>(2, 3)), w.m(Domain<2>(2, 2)), 16); inj::on = false; return double(double(f.output_size()));});
  // maps
  OP("map", Map<> m(1, 1); Map<> n(m), double(n.num_subblocks()))
  typedef Matrix<float, Dense<2, float, row2_type, Map<> > > DM; OP("distributed matrix", DM x(5, 4, 3.f, Map<>(1, 1)), sig(x.local()))
  op("distributed assignment", [](World &) { DM x(5, 4, 3.f, Map<>(1, 1)), y(5, 4, 1.f, Map<>(1, 1)); inj::on = true; y = x * x; inj::on = false; return sig(y.local());});
  op("library", [](World &) { inj::on = true; vsipl lib; inj::on = false; return 1.;});
}
// operations that must report a failure by an exception: no part of them is declared not to throw
static std::set<std::string> const &musts()
{
  static char const *n[] = {"vector", "matrix", "tensor", "column-major matrix", "split vector", "split matrix", "interleaved vector", "padded matrix", "user storage", "split user storage", "rebind",
    "expression", "sum", "maximum", "dot", "gemp", "split gemp", "direct access", "converted access", "split access", "transposed access", "run-time access",
    "fft object", "fft by value object", "real fft object", "real inverse fft object", "2-D fft object", "2-D real fft object", "multiple fft object", "multiple real fft object", "fft in place",
    "lu object", "qr object", "complex qr object", "svd object", "complex svd object", "cholesky object", "random object", "correlation object", "complex correlation object", "convolution object",
    "histogram object"};
  static std::set<std::string> s(n, n + sizeof n / sizeof *n); return s;
}
