"""The corpus: every form of type a bridge can pass, and how to make and
recognise a value of it.

 n     name
 t     type as written in the bridge
 ht    the same type as seen by the harness (default: t)
 mk    Rust expression giving an arbitrary value of the type (may use leaked memory)
 imp   the C++-side declaration uses a void pointer
 pos   a subset of "a" (argument of a C++ function), "r" (returned by one), "A" (argument
       of a Rust function), "R" (returned by one)
 ind   passed by hidden pointer
 abi   ABI type seen by the other side when ind is false, with how to convert to and from it
"""
PRIMS = ["bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"]

def F(n, t, mk=None, ht=None, ind=False, abi=None, inn="{}", out="{}", pos="arAR", drops=0, cdrops=0, abi_ind=None, imp=False, uw=None, eat="drop"):
    ht = ht or t
    return dict(n=n, t=t, ht=ht, mk=mk or "any()", ind=ind, abi=abi or ht, inn=inn, out=out, pos=pos, drops=drops, cdrops=cdrops,
                abi_ind=abi_ind or ht, imp=imp, uw=uw, eat=eat)

FORMS = [F(p, p) for p in PRIMS] + [
    F("char", "c_char", ht="core::ffi::c_char"),
    F("string", "String", "any_string()", ind=True, abi_ind="cxx::private::RustString"),
    F("string_ref", "&String", "leak(any_string())", abi="&cxx::private::RustString", inn="{}.as_string()", out="cxx::private::RustString::from_ref({})"),
    F("string_mut", "&mut String", "leak_mut(any_string())", abi="&mut cxx::private::RustString", inn="{}.as_mut_string()", out="cxx::private::RustString::from_mut({})"),
    F("str", "&str", "any_str()", abi="cxx::private::RustStr", inn="{}.as_str()", out="cxx::private::RustStr::from({})"),
    F("slice_u8", "&[u8]", "any_slice::<u8>()", abi="cxx::private::RustSlice", inn="{}.as_slice::<u8>()", out="cxx::private::RustSlice::from_ref({})"),
    F("slice_u64", "&[u64]", "any_slice::<u64>()", abi="cxx::private::RustSlice", inn="{}.as_slice::<u64>()", out="cxx::private::RustSlice::from_ref({})"),
    F("slice_mut_u16", "&mut [u16]", "any_slice_mut::<u16>()", abi="cxx::private::RustSlice", inn="{}.as_mut_slice::<u16>()", out="cxx::private::RustSlice::from_mut({})"),
    F("slice_pod", "&[Pod]", "any_slice::<Pod>()", abi="cxx::private::RustSlice", inn="{}.as_slice::<Pod>()", out="cxx::private::RustSlice::from_ref({})"),
    F("slice_mut_opaque", "&mut [R]", "any_slice_mut::<R>()", abi="cxx::private::RustSlice", inn="{}.as_mut_slice::<R>()", out="cxx::private::RustSlice::from_mut({})"),
    F("slice_string", "&[String]", "any_slice::<String>()", abi="cxx::private::RustSlice", inn="{}.as_slice::<String>()", out="cxx::private::RustSlice::from_ref({})"),
    F("box", "Box<R>", "Box::new(any_r())", abi="*mut R", inn="Box::from_raw({}.cast::<R>())", out="Box::into_raw({}).cast()", drops=1, imp=True),
    F("vec_u8", "Vec<u8>", "any_vec::<u8>()", ind=True, abi_ind="cxx::private::RustVec<u8>"),
    F("vec_pod", "Vec<Pod>", "any_vec::<Pod>()", ind=True, abi_ind="cxx::private::RustVec<Pod>"),
    F("vec_string", "Vec<String>", "Vec::from([some_string()])", ind=True, eat="eat_vec", abi_ind="cxx::private::RustVec<cxx::private::RustString>"),
    F("vec_opaque", "Vec<R>", "Vec::from([any_r()])", ind=True, abi_ind="cxx::private::RustVec<R>", drops=1, eat="eat_vec"),
    F("vec_ref", "&Vec<u32>", "leak(any_vec::<u32>())", abi="&cxx::private::RustVec<u32>", inn="{}.as_vec()", out="cxx::private::RustVec::from_ref({})"),
    F("vec_mut", "&mut Vec<u32>", "leak_mut(any_vec::<u32>())", abi="&mut cxx::private::RustVec<u32>", inn="{}.as_mut_vec()", out="cxx::private::RustVec::from_mut({})"),
    F("vec_string_ref", "&Vec<String>", "leak(Vec::from([any_string()]))", abi="&cxx::private::RustVec<cxx::private::RustString>", inn="{}.as_vec_string()", out="cxx::private::RustVec::from_ref_vec_string({})"),
    F("vec_string_mut", "&mut Vec<String>", "leak_mut(Vec::from([any_string()]))", abi="&mut cxx::private::RustVec<cxx::private::RustString>", inn="{}.as_mut_vec_string()", out="cxx::private::RustVec::from_mut_vec_string({})"),
    F("unique", "UniquePtr<C>", "any_unique::<C>()", abi="*mut C", inn="UniquePtr::<C>::from_raw({})", out="UniquePtr::into_raw({})", cdrops=1),
    F("unique_vec", "UniquePtr<CxxVector<u8>>", "any_unique::<CxxVector<u8>>()", abi="*mut CxxVector<u8>", inn="UniquePtr::<CxxVector<u8>>::from_raw({})", out="UniquePtr::into_raw({})", cdrops=1),
    F("unique_string", "UniquePtr<CxxString>", "any_unique::<CxxString>()", abi="*mut CxxString", inn="UniquePtr::<CxxString>::from_raw({})", out="UniquePtr::into_raw({})", cdrops=1),
    F("unique_alias", "UniquePtr<OpaqueAlias>", "any_unique::<OpaqueAlias>()", abi="*mut OpaqueAlias", inn="UniquePtr::<OpaqueAlias>::from_raw({}.cast())", out="UniquePtr::into_raw({}).cast()", cdrops=1, imp=True),
    F("shared", "SharedPtr<C>", "any_words::<SharedPtr<C>>()", ind=True, cdrops=1),
    F("weak", "WeakPtr<C>", "any_words::<WeakPtr<C>>()", ind=True, cdrops=1),
    F("shared_u8", "SharedPtr<u8>", "any_words::<SharedPtr<u8>>()", ind=True, cdrops=1),
    F("unique_ref", "&UniquePtr<C>", "leak(any_unique::<C>())"),
    F("shared_ref", "&SharedPtr<C>", "leak(any_words::<SharedPtr<C>>())"),
    F("box_ref", "&Box<R>", "leak(Box::new(any_r()))", abi="&Box<R>", imp=True),
    F("opaque_ref", "&C", "any_addr_ref::<C>()"),
    F("opaque_pin", "Pin<&mut C>", "any_addr_pin::<C>()"),
    F("cxx_string_ref", "&CxxString", "any_addr_ref::<CxxString>()"),
    F("cxx_string_pin", "Pin<&mut CxxString>", "any_addr_pin::<CxxString>()"),
    F("cxx_vector_ref", "&CxxVector<u8>", "any_addr_ref::<CxxVector<u8>>()"),
    F("cxx_vector_pin", "Pin<&mut CxxVector<C>>", "any_addr_pin::<CxxVector<C>>()"),
    F("rust_ref", "&R", "leak(any_r())", imp=True),
    F("rust_mut", "&mut R", "leak_mut(any_r())", imp=True),
    F("struct", "S", "any_s()", ind=True, drops=1),
    F("struct_ref", "&S", "leak(any_s())", imp=True),
    F("struct_mut", "&mut S", "leak_mut(any_s())", imp=True),
    F("pod", "Pod", "any()", ind=True),
    F("small", "Small", "any()"),
    F("enum", "E", "any()"),
    F("enum_i64", "E64", "any()"),
    F("enum_ref", "&E", "leak(any::<E>())"),
    F("array", "[u8; 3]", "any()", ind=True),
    F("array_pod", "[Pod; 2]", "any()", ind=True),
    F("ptr", "*const u32", "any_addr() as *const u32"),
    F("ptr_opaque", "*mut C", "any_addr() as *mut C"),
    F("ptr_rust", "*mut R", "any_addr() as *mut R", imp=True),
    F("alias_ref", "&OpaqueAlias", "any_addr_ref::<OpaqueAlias>()", imp=True),
    F("alias_pin", "Pin<&mut OpaqueAlias>", "any_addr_pin::<OpaqueAlias>()", imp=True),
    F("alias_trivial", "TrivialAlias", "any()", ind=True),
    F("alias_ptr", "*const OpaqueAlias", "any_addr() as *const OpaqueAlias", imp=True),
]
