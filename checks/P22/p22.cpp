// Serialisation: data and descriptor of any source into any reader.
#include "model.hpp"
#include "main.hpp"
#include <vsip/dda.hpp>
#include <vsip/serialization.hpp>
#include <functional>
#include <memory>
using namespace vt; using namespace vsip;
namespace sz = vsip::serialization;
namespace
{
Ctx *C;
typedef unsigned long ul;
struct Fit { ul type; int D; long n[3], st[3];};      // what a descriptor says, by the monitor's own account
// one serialised array: its descriptor, its elements in storage order as bytes, its values in row-major order
template <typename T> struct Ser
{
  sz::Descriptor info; Fit fit; int fmt = 0; std::string lab; std::vector<T> vals;
  T const *a = 0; typename scalar<T>::type const *i = 0, *re = 0, *im = 0;
  void set(T const *p) { fmt = 1; a = p;}
  template <typename S> typename std::enable_if<!std::is_same<S, T>::value>::type set(S const *p) { fmt = 2; i = p;}
  template <typename S> void set(std::pair<S const *, S const *> p) { fmt = 3; re = p.first; im = p.second;}
  template <typename S> void set(std::pair<S *, S *> p) { fmt = 3; re = p.first; im = p.second;}
  long total() const { return long(vals.size());}
};
void dense(int D, int const *ord, long const *n, long *st) { long s = 1; for (int d = D; d-- > 0;) { st[ord[d]] = s; s *= n[ord[d]];}}
enum Verdict { must, may, mustnot };
Verdict judge(Fit const &f, ul type, int D, int const *ord)
{
  if (f.type != type || f.D != D) return mustnot;
  long st[3]; dense(D, ord, f.n, st); bool exact = true;
  for (int d = 0; d < D; ++d) { if (f.st[d] == st[d]) continue; exact = false; if (f.n[d] > 1) return mustnot;}
  return exact ? must : may;
}
template <typename O> struct Ord { static void get(int *o) { o[0] = O::impl_dim0; o[1] = O::impl_dim1; o[2] = O::impl_dim2;}};
template <int D> Domain<D> dom_(ul const *n);
template <> Domain<1> dom_<1>(ul const *n) { return Domain<1>(n[0]);}
template <> Domain<2> dom_<2>(ul const *n) { return Domain<2>(n[0], n[1]);}
template <> Domain<3> dom_<3>(ul const *n) { return Domain<3>(n[0], n[1], n[2]);}
template <int D, typename T, typename B> struct vw { typedef Vector<T, B> type;};
template <typename T, typename B> struct vw<2, T, B> { typedef Matrix<T, B> type;};
template <typename T, typename B> struct vw<3, T, B> { typedef Tensor<T, B> type;};
// bind user storage to a block (with the element type of the format)
template <typename B, typename T> void bindto(B &b, Domain<B::dim> const &d, int, T *a, T *, T *, T *, std::false_type) { b.rebind(a, d);}
template <typename B, typename T, typename S> void bindto(B &b, Domain<B::dim> const &d, int fmt, T *a, S *i, S *re, S *im, std::true_type)
{ if (fmt == 1) b.rebind(a, d); else if (fmt == 2) b.rebind(i, d); else b.rebind(std::make_pair(re, im), d);}

template <typename B> struct Reader
{
  typedef typename B::value_type T; typedef typename scalar<T>::type S;
  static int const D = B::dim;
  static void read(Ser<T> const &s, std::string const &lab)
  {
    // a copy of exactly the serialised elements, as a peer would receive it
    long n = s.total();
    std::unique_ptr<T[]> a; std::unique_ptr<S[]> i, re, im;
    if (s.fmt == 1) { a.reset(new T[n]); std::copy(s.a, s.a + n, a.get());}
    else if (s.fmt == 2) { i.reset(new S[2 * n]); std::copy(s.i, s.i + 2 * n, i.get());}
    else { re.reset(new S[n]); im.reset(new S[n]); std::copy(s.re, s.re + n, re.get()); std::copy(s.im, s.im + n, im.get());}
    ul zero[3] = {0, 0, 0}, size[3] = { s.info.size[0], s.info.size[1], s.info.size[2]};
    B block(dom_<D>(zero), static_cast<T *>(0));
    typename vw<D, T, B>::type v(block);
    bindto(block, dom_<D>(size), s.fmt, a.get(), i.get(), re.get(), im.get(), typename is_cplx<T>::type());
    block.admit();
    bool good = true; long k[3]; sizes(v, k);
    for (int d = 0; d < D; ++d) good = good && k[d] == s.fit.n[d];
    if (!good) { C->fail("size", str(lab, " has size ", k[0], "x", k[1], "x", k[2])); return;}
    std::vector<T> got = readall(v);
    for (long x = 0; good && x < n; ++x) if (!(got[x] == s.vals[x])) { good = false; C->fail("value", str(lab, " element ", x, " of ", n, " is ", got[x], " expected ", s.vals[x]));}
    // what is written through the reader is found in the peer's storage
    sz::Descriptor back; sz::describe_user_storage(block, back);
    if (back.value_type != s.info.value_type || back.dimensions != D || back.storage_format != ul(s.fmt == 1 ? array : s.fmt == 2 ? interleaved_complex : split_complex)) { good = false; C->fail("user-descriptor", str(lab, " describes its user storage as type ", back.value_type, " format ", int(back.storage_format), " dimensions ", int(back.dimensions)));}
    for (int d = 0; d < D; ++d) if (back.size[d] != s.info.size[d] || (s.fit.n[d] > 1 && back.stride[d] != s.info.stride[d])) { good = false; C->fail("user-descriptor", str(lab, " describes its user storage with size ", back.size[d], " stride ", back.stride[d], " in dimension ", d));}
    if (!sz::is_compatible<B>(back)) { good = false; C->fail("user-descriptor", lab + " is not compatible with its own user storage");}
    block.release(true);
    if (good) C->ok(lab);
  }
};
struct Try
{
  template <typename B, typename T> static void one(Ser<T> const &s, char const *name)
  {
    int o[3]; Ord<typename get_block_layout<B>::order_type>::get(o);
    Verdict want = judge(s.fit, sz::type_info<typename B::value_type>::value, B::dim, o);
    bool got = sz::is_compatible<B>(s.info);
    std::string lab = s.lab + " -> " + name;
    C->begin(lab);
    if (got && want == mustnot) { C->fail("accepted", lab + " was accepted"); return;}
    if (!got && want == must) { C->fail("rejected", lab + " was rejected"); return;}
    C->count(got ? "accepted" : "rejected");
    if (got && s.total()) go<B>(s, lab, std::is_same<typename B::value_type, T>()); else C->ok(lab);
  }
  template <typename B, typename T> static void go(Ser<T> const &s, std::string const &lab, std::true_type) { Reader<B>::read(s, lab);}
  template <typename B, typename T> static void go(Ser<T> const &, std::string const &lab, std::false_type) { C->fail("accepted", lab + " was accepted by another type");}
};
template <typename R, int D, typename O, storage_format_type F> struct SB { typedef ovxx::Strided<D, R, Layout<D, O, vsip::dense, F> > type;};
template <typename R, typename T> void readers_of(Ser<T> const &s, char const *t, std::false_type)
{
  Try::one<Dense<1, R> >(s, str(t, " 1").c_str()); Try::one<Dense<2, R> >(s, str(t, " 2 row").c_str()); Try::one<Dense<2, R, col2_type> >(s, str(t, " 2 col").c_str());
  Try::one<Dense<3, R> >(s, str(t, " 3 012").c_str()); Try::one<Dense<3, R, tuple<2, 1, 0> > >(s, str(t, " 3 210").c_str()); Try::one<Dense<3, R, tuple<1, 0, 2> > >(s, str(t, " 3 102").c_str()); Try::one<Dense<3, R, tuple<0, 2, 1> > >(s, str(t, " 3 021").c_str());
}
template <typename R, typename T> void readers_of(Ser<T> const &s, char const *t, std::true_type)
{
  readers_of<R>(s, t, std::false_type());
  Try::one<typename SB<R, 1, row1_type, split_complex>::type>(s, str(t, " 1 split").c_str()); Try::one<typename SB<R, 1, row1_type, interleaved_complex>::type>(s, str(t, " 1 inter").c_str());
  Try::one<typename SB<R, 2, col2_type, split_complex>::type>(s, str(t, " 2 col split").c_str()); Try::one<typename SB<R, 2, row2_type, interleaved_complex>::type>(s, str(t, " 2 row inter").c_str());
  Try::one<typename SB<R, 3, tuple<1, 2, 0>, split_complex>::type>(s, str(t, " 3 120 split").c_str());
}
template <typename T> void readers(Ser<T> const &s)
{
#define X(R, N) if (std::is_same<R, T>::value || C->rng.coin(1, 6)) readers_of<R>(s, N, typename is_cplx<R>::type());
  P_READ
#undef X
}
// descriptors that were tampered with may only be accepted when they still fit
template <typename T> void tampered(Ser<T> s)
{
  Rng &r = C->rng; std::vector<ul> ty = { 0, 1, 4, 5, 6, 7, sz::type_info<int>::value, sz::type_info<unsigned short>::value, 3, 8, 0x10000};
  switch (r.range(0, 3))
  {
    case 0: s.info.dimensions = s.fit.D = r.range(0, 4); break;
    case 1: s.info.value_type = s.fit.type = r.pick(ty); break;
    case 2: { int d = r.range(0, s.fit.D - 1); long st = r.coin() ? -s.fit.st[d] : r.coin() ? s.fit.st[d] + r.range(-2, 2) : s.fit.st[r.range(0, s.fit.D - 1)]; s.info.stride[d] = s.fit.st[d] = st; break;}
    default: { int d = r.range(0, s.fit.D - 1); s.info.size[d] = s.fit.n[d] = s.fit.n[d] + r.range(1, 3);}
  }
  s.lab += str(" tampered ", int(s.info.dimensions), " ", s.info.value_type, " ", s.fit.n[0], "/", s.fit.st[0], " ", s.fit.n[1], "/", s.fit.st[1], " ", s.fit.n[2], "/", s.fit.st[2]);
  s.vals.clear();                              // not read
  readers(s);
}
template <typename T> void account(Ser<T> &s, int D, long const *n, std::vector<T> const &vals)
{
  s.vals = vals; s.fit.type = sz::type_info<T>::value; s.fit.D = D;
  for (int d = 0; d < 3; ++d) { s.fit.n[d] = d < D ? n[d] : 0; s.fit.st[d] = d < D ? s.info.stride[d] : 0;}
  bool good = s.info.value_type == s.fit.type && s.info.dimensions == D;
  for (int d = 0; d < D; ++d) good = good && long(s.info.size[d]) == n[d];
  if (!good) C->fail("descriptor", str(s.lab, " describes type ", s.info.value_type, " dimensions ", int(s.info.dimensions), " sizes ", s.info.size[0], " ", s.info.size[1], " ", s.info.size[2]));
}
template <typename DataT, typename T> void with(DataT const &d, std::string const &lab, int D, long const *n, std::vector<T> const &vals)
{
  Ser<T> s; memset(&s.info, 0x5a, sizeof s.info); s.lab = lab;
  C->begin(lab);
  sz::describe_data(d, s.info);
  for (int i = D; i < 3; ++i) { s.info.size[i] = 0; s.info.stride[i] = 0;}
  s.set(d.ptr()); account(s, D, n, vals);
  bool good = s.info.storage_format == ul(s.fmt == 1 ? array : s.fmt == 2 ? interleaved_complex : split_complex);
  if (!good) C->fail("descriptor", str(lab, " describes format ", int(s.info.storage_format)));
  // the strides lead to the values
  for (long l = 0; good && l < s.total(); ++l)
  {
    long c[3] = { l, 0, 0}; if (D == 2) { c[0] = l / n[1]; c[1] = l % n[1];} if (D == 3) { c[0] = l / (n[1] * n[2]); c[1] = l / n[2] % n[1]; c[2] = l % n[2];}
    long o = 0; for (int i = 0; i < D; ++i) o += c[i] * long(s.info.stride[i]);
    T v = s.vals[l], w = elem(s, o); if (!(v == w)) { good = false; C->fail("stride", str(lab, " element ", l, " is ", w, " expected ", v));}
  }
  if (!good) return;
  readers(s); tampered(s);
}
template <typename T> T join(T r, T) { return r;}
template <typename T> T elem_(Ser<T> const &s, long o, std::false_type) { return s.a[o];}
template <typename T> T elem_(Ser<T> const &s, long o, std::true_type) { return s.fmt == 1 ? s.a[o] : s.fmt == 2 ? T(s.i[2 * o], s.i[2 * o + 1]) : T(s.re[o], s.im[o]);}
template <typename T> T elem(Ser<T> const &s, long o) { return elem_(s, o, typename is_cplx<T>::type());}

template <typename O, storage_format_type F, typename V> void as(V v, std::string const &lab, char const *how)
{
  long n[3]; sizes(v, n); std::vector<typename V::value_type> vals = readall(v);
  typedef Layout<V::dim, O, vsip::dense, F> L;
  dda::Data<typename V::block_type, dda::in, L> d(v.block());
  with(d, lab + how, V::dim, n, vals);
}
template <typename V> void plain(V v, std::string const &lab)
{
  long n[3]; sizes(v, n); std::vector<typename V::value_type> vals = readall(v);
  dda::Data<typename V::block_type, dda::in> d(v.block());
  with(d, lab, V::dim, n, vals);
}
template <typename V> void laid(V v, std::string const &lab, std::false_type, Domain<1>) { as<row1_type, array>(v, lab, " as dense");}
template <typename V> void laid(V v, std::string const &lab, std::false_type, Domain<2>) { if (C->rng.coin()) as<row2_type, array>(v, lab, " as row"); else as<col2_type, array>(v, lab, " as col");}
template <typename V> void laid(V v, std::string const &lab, std::false_type, Domain<3>) { if (C->rng.coin()) as<row3_type, array>(v, lab, " as 012"); else as<tuple<1, 0, 2>, array>(v, lab, " as 102");}
template <typename V> void laid(V v, std::string const &lab, std::true_type, Domain<1>) { if (C->rng.coin()) as<row1_type, split_complex>(v, lab, " as split"); else as<row1_type, interleaved_complex>(v, lab, " as inter");}
template <typename V> void laid(V v, std::string const &lab, std::true_type, Domain<2>) { if (C->rng.coin()) as<row2_type, split_complex>(v, lab, " as row split"); else as<col2_type, interleaved_complex>(v, lab, " as col inter");}
template <typename V> void laid(V v, std::string const &lab, std::true_type, Domain<3>) { if (C->rng.coin()) as<tuple<1, 2, 0>, split_complex>(v, lab, " as 120 split"); else as<row3_type, array>(v, lab, " as 012 array");}
template <typename V> void emit(V v, std::string const &lab) { plain(v, lab); laid(v, lab, typename is_cplx<typename V::value_type>::type(), Domain<V::dim>());}
long len(Rng &r, int D) { return r.coin(1, 5) ? 1 : r.range(1, D == 1 ? 20 : D == 2 ? 8 : 5);}
template <typename V> void sub(V v, std::string const &lab, Domain<1>) { Domain<1> a = rdom(C->rng, v.size()); emit(v(a), lab + " sub " + sdom(a));}
template <typename V> void sub(V v, std::string const &lab, Domain<2>)
{
  Rng &r = C->rng; Domain<1> a = rdom(r, v.size(0)), b = rdom(r, v.size(1)); if (r.coin()) b = Domain<1>(v.size(1)); else if (r.coin()) a = Domain<1>(v.size(0));
  emit(v(Domain<2>(a, b)), lab + " sub " + sdom(a) + " " + sdom(b));
  if (r.coin()) emit(v.transpose(), lab + " transposed"); else { long i = r.range(0, v.size(0) - 1); emit(v.row(i), lab + str(" row ", i)); i = r.range(0, v.size(1) - 1); emit(v.col(i), lab + str(" col ", i));}
}
template <typename V> void sub(V v, std::string const &lab, Domain<3>)
{
  Rng &r = C->rng; Domain<1> d[3]; for (int i = 0; i < 3; ++i) d[i] = r.coin() ? Domain<1>(v.size(i)) : r.coin() ? Domain<1>(v.size(i) - 1, -1, v.size(i)) : rdom(r, v.size(i));
  emit(v(Domain<3>(d[0], d[1], d[2])), lab + " sub " + sdom(d[0]) + " " + sdom(d[1]) + " " + sdom(d[2]));
}
template <typename B> void source(char const *name)
{
  typedef typename B::value_type T; int const D = B::dim; Rng &r = C->rng;
  ul n[3]; for (int d = 0; d < 3; ++d) n[d] = len(r, D);
  B b(dom_<D>(n)); typename vw<D, T, B>::type v(b);
  long k[3]; sizes(v, k); long t = k[0] * k[1] * k[2]; std::vector<T> x; for (long i = 0; i < t; ++i) x.push_back(uid<T>::of(i + r.range(0, 50))); writeall(v, x);
  std::string lab = str(tname<T>::get(), " ", name, " ", n[0], D > 1 ? str("x", n[1]) : "", D > 2 ? str("x", n[2]) : "");
  emit(v, lab); sub(v, lab, Domain<D>());
}
// user storage described as such
template <typename B> void user(char const *name)
{
  typedef typename B::value_type T; typedef typename scalar<T>::type S; int const D = B::dim; Rng &r = C->rng;
  ul n[3]; long k[3]; for (int d = 0; d < 3; ++d) { n[d] = len(r, D); k[d] = n[d]; if (d >= D) k[d] = 1;}
  long t = k[0] * k[1] * k[2];
  Ser<T> s; s.fmt = is_cplx<T>::value ? r.range(1, 3) : 1;
  std::vector<char> sink; std::unique_ptr<T[]> a; std::unique_ptr<S[]> i, re, im;
  if (s.fmt == 1) s.a = (a.reset(new T[t]), a.get()); else if (s.fmt == 2) s.i = (i.reset(new S[2 * t]), i.get()); else { s.re = (re.reset(new S[t]), re.get()); s.im = (im.reset(new S[t]), im.get());}
  std::vector<T> x; for (long j = 0; j < t; ++j) x.push_back(uid<T>::of(j + r.range(0, 50)));
  ul zero[3] = {0, 0, 0}; B b(dom_<D>(zero), static_cast<T *>(0)); typename vw<D, T, B>::type v(b);
  bindto(b, dom_<D>(n), s.fmt, a.get(), i.get(), re.get(), im.get(), typename is_cplx<T>::type());
  b.admit(false); writeall(v, x); b.release(true);
  s.lab = str(tname<T>::get(), " user ", name, " format ", s.fmt, " ", n[0], D > 1 ? str("x", n[1]) : "", D > 2 ? str("x", n[2]) : "");
  C->begin(s.lab); memset(&s.info, 0x5a, sizeof s.info); sz::describe_user_storage(b, s.info);
  account(s, D, k, x);
  int o[3]; Ord<typename get_block_layout<B>::order_type>::get(o); long st[3]; dense(D, o, k, st);
  for (int d = 0; d < D; ++d) if (s.info.stride[d] != st[d]) C->fail("user-stride", str(s.lab, " dimension ", d, " stride ", s.info.stride[d], " expected ", st[d]));
  readers(s); tampered(s);
}
template <typename T> void reals()
{
  source<Dense<1, T> >("1"); source<Dense<2, T> >("2 row"); source<Dense<2, T, col2_type> >("2 col"); source<Dense<3, T> >("3 012");
  source<Dense<3, T, tuple<1, 0, 2> > >("3 102"); source<Dense<3, T, tuple<2, 1, 0> > >("3 210");
  source<ovxx::Strided<2, T, Layout<2, row2_type, aligned_32, array> > >("2 row aligned"); source<ovxx::Strided<3, T, Layout<3, tuple<0, 2, 1>, aligned_16, array> > >("3 021 aligned");
  user<Dense<1, T> >("1"); user<Dense<2, T> >("2 row"); user<Dense<2, T, col2_type> >("2 col"); user<Dense<3, T, tuple<1, 0, 2> > >("3 102"); user<Dense<3, T> >("3 012");
}
template <typename T> void complexes()
{
  reals<T>();
  source<typename SB<T, 1, row1_type, split_complex>::type>("1 split"); source<typename SB<T, 2, col2_type, split_complex>::type>("2 col split"); source<typename SB<T, 2, row2_type, interleaved_complex>::type>("2 row inter");
  source<typename SB<T, 3, tuple<1, 2, 0>, split_complex>::type>("3 120 split");
  user<typename SB<T, 2, col2_type, split_complex>::type>("2 col split"); user<typename SB<T, 2, row2_type, interleaved_complex>::type>("2 row inter"); user<typename SB<T, 3, tuple<1, 2, 0>, split_complex>::type>("3 120 split");
}
}
void vt_main(Ctx &c)
{
  C = &c;
  for (int i = 0; i < c.n(P_REPS); ++i) { P_RUN }
}
