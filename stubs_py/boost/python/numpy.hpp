// The interface of Boost.Python's numpy extension implemented on the Python-level interface of numpy: the installed libboost_numpy
// was compiled for NumPy 1 and refuses the only numpy available here (2.x). Only the binding is replaced, the arrays are genuine.
#pragma once
#include <boost/python.hpp>
#include <boost/type_traits/is_same.hpp>
#include <complex>
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace boost { namespace python { namespace numpy {
inline bool& initialized() {static bool b=false; return b;} // as with the original, nothing works before initialization
inline object module() {if (!initialized()) {PyErr_SetString(PyExc_RuntimeError,"boost::python::numpy is not initialized"); throw_error_already_set();} return import("numpy");}
inline void initialize(bool=true) {initialized()=true; module();}
template<typename T> struct NameOf;
#define VMC_NAME(T,N) template<> struct NameOf<T> {static const char* _() {return N;}};
VMC_NAME(double,"float64") VMC_NAME(float,"float32") VMC_NAME(std::complex<double>,"complex128") VMC_NAME(std::complex<float>,"complex64") VMC_NAME(bool,"bool")
VMC_NAME(std::int8_t,"int8") VMC_NAME(std::uint8_t,"uint8") VMC_NAME(std::int16_t,"int16") VMC_NAME(std::uint16_t,"uint16") VMC_NAME(std::int32_t,"int32") VMC_NAME(std::uint32_t,"uint32") VMC_NAME(std::int64_t,"int64") VMC_NAME(std::uint64_t,"uint64")
#undef VMC_NAME
class dtype : public object {
public:
  explicit dtype(object const& arg, bool=false) : object(module().attr("dtype")(arg)) {}
  template<typename T> static dtype get_builtin() {return dtype(str(NameOf<T>::_()));}
  int get_itemsize() const {return extract<int>(attr("itemsize"));}
};
inline bool equivalent(dtype const& a, dtype const& b) {object r(module().attr("can_cast")(a,b,"equiv")); return extract<bool>(r);}
inline bool operator==(dtype const& a, dtype const& b) {int r=PyObject_RichCompareBool(a.ptr(),b.ptr(),Py_EQ); if (r<0) throw_error_already_set(); return r;}
inline bool operator!=(dtype const& a, dtype const& b) {return !(a==b);}
class ndarray : public object {
public:
  enum bitflag {NONE=0,C_CONTIGUOUS=1,F_CONTIGUOUS=2,V_CONTIGUOUS=3,ALIGNED=4,WRITEABLE=8,BEHAVED=12,CARRAY_RO=5,CARRAY=13,CARRAY_MIS=9,FARRAY_RO=6,FARRAY=14,FARRAY_MIS=10,UPDATE_ALL=15,VARRAY=15,ALL=15};
  explicit ndarray(detail::borrowed_reference p) : object(p) {}
  explicit ndarray(detail::new_reference p) : object(p) {}
  explicit ndarray(detail::new_non_null_reference p) : object(p) {}
  explicit ndarray(object const& o) : object(o) {if (!isinstance(o)) {PyErr_SetString(PyExc_TypeError,"not an ndarray"); throw_error_already_set();}}
  static bool isinstance(object const& o) {object t(module().attr("ndarray")); return PyObject_IsInstance(o.ptr(),t.ptr())==1;}
  int get_nd() const {return extract<int>(attr("ndim"));}
  Py_intptr_t shape(int n) const {object t(attr("shape")); return extract<Py_intptr_t>(object(t[n]));}
  Py_intptr_t strides(int n) const {object t(attr("strides")); return extract<Py_intptr_t>(object(t[n]));}
  const Py_intptr_t* get_shape() const {return fill(sh_,&ndarray::shape);}
  const Py_intptr_t* get_strides() const {return fill(st_,&ndarray::strides);}
  char* get_data() const {object d(attr("ctypes").attr("data")); return reinterpret_cast<char*>(static_cast<std::uintptr_t>(extract<unsigned long long>(d)()));}
  dtype get_dtype() const {return dtype(object(attr("dtype")));}
  object get_base() const {return attr("base");}
  bitflag get_flags() const {object f(attr("flags")); auto b=[&](const char* n){return bool(extract<bool>(object(f.attr(n))));}; return bitflag((b("c_contiguous")?1:0)|(b("f_contiguous")?2:0)|(b("aligned")?4:0)|(b("writeable")?8:0));}
  ndarray view(dtype const& d) const {return ndarray(object(attr("view")(d)));}
  ndarray astype(dtype const& d) const {return ndarray(object(attr("astype")(d)));}
  ndarray copy() const {return ndarray(object(attr("copy")()));}
  ndarray transpose() const {return ndarray(object(attr("transpose")()));}
  ndarray squeeze() const {return ndarray(object(attr("squeeze")()));}
  ndarray reshape(tuple const& t) const {return ndarray(object(attr("reshape")(t)));}
private:
  const Py_intptr_t* fill(std::vector<Py_intptr_t>& v, Py_intptr_t (ndarray::*f)(int) const) const {v.clear(); for (int i=0;i<get_nd();++i) v.push_back((this->*f)(i)); return v.data();}
  mutable std::vector<Py_intptr_t> sh_, st_;
};
inline tuple asTuple(int nd, Py_intptr_t const* s) {list l; for (int i=0;i<nd;++i) l.append(long(s[i])); return tuple(l);}
inline ndarray empty(tuple const& s, dtype const& d) {return ndarray(object(module().attr("empty")(s,d)));}
inline ndarray empty(int nd, Py_intptr_t const* s, dtype const& d) {return empty(asTuple(nd,s),d);}
inline ndarray zeros(tuple const& s, dtype const& d) {return ndarray(object(module().attr("zeros")(s,d)));}
inline ndarray zeros(int nd, Py_intptr_t const* s, dtype const& d) {return zeros(asTuple(nd,s),d);}
inline ndarray array(object const& o) {return ndarray(object(module().attr("array")(o)));}
inline ndarray array(object const& o, dtype const& d) {return ndarray(object(module().attr("array")(o,d)));}
inline ndarray from_object(object const& o, dtype const& d, int ndmin=0, int=0, ndarray::bitflag f=ndarray::NONE) {
  dict k; if (f&ndarray::C_CONTIGUOUS) k["order"]="C"; else if (f&ndarray::F_CONTIGUOUS) k["order"]="F"; k["ndmin"]=ndmin; k["copy"]=object(); return ndarray(object(module().attr("array")(*make_tuple(o,d),**k)));}
inline ndarray from_object(object const& o, dtype const& d, int nd, ndarray::bitflag f) {return from_object(o,d,nd,nd,f);}
inline ndarray from_object(object const& o, dtype const& d, ndarray::bitflag f) {return from_object(o,d,0,0,f);}
inline ndarray from_object(object const& o, ndarray::bitflag f=ndarray::NONE) {return from_object(o,array(o).get_dtype(),0,0,f);}
inline ndarray from_object(object const& o, int ndmin, int ndmax, ndarray::bitflag f=ndarray::NONE) {return from_object(o,array(o).get_dtype(),ndmin,ndmax,f);}
template<typename C> tuple containerTuple(C const& c) {list l; for (auto x : c) l.append(long(x)); return tuple(l);}
inline ndarray fromData(void* data, dtype const& d, tuple const& shape, tuple const& strides, object const& owner) {
  std::size_t n=d.get_itemsize(); long k=len(shape); for (long i=0;i<k;++i) n+=(extract<long>(object(shape[i]))-1)*std::abs(long(extract<long>(object(strides[i]))));
  object mv(handle<>(PyMemoryView_FromMemory(static_cast<char*>(data),n,PyBUF_WRITE))); return ndarray(object(module().attr("ndarray")(shape,d,mv,0,strides))); }
template<typename C1, typename C2> ndarray from_data(void* data, dtype const& d, C1 const& shape, C2 const& strides, object const& owner) {
  auto tup=[](auto const& c){ if constexpr (std::is_base_of_v<object,std::decay_t<decltype(c)>>) return tuple(c); else return containerTuple(c); }; return fromData(data,d,tup(shape),tup(strides),owner); }
}
namespace converter {
template<> struct object_manager_traits<numpy::ndarray> { BOOST_STATIC_CONSTANT(bool,is_specialized=true);
  static bool check(PyObject* x) {return numpy::ndarray::isinstance(object(handle<>(borrowed(x))));}
  static python::detail::new_non_null_reference adopt(PyObject* x) {return python::detail::new_non_null_reference(x);}
  static PyTypeObject const* get_pytype() {return nullptr;} };
template<> struct object_manager_traits<numpy::dtype> { BOOST_STATIC_CONSTANT(bool,is_specialized=true);
  static bool check(PyObject* x) {object t(numpy::module().attr("dtype")); return PyObject_IsInstance(x,t.ptr())==1;}
  static python::detail::new_non_null_reference adopt(PyObject* x) {return python::detail::new_non_null_reference(x);}
  static PyTypeObject const* get_pytype() {return nullptr;} };
}
}}
