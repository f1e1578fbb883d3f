// Generated by tools/gen_h5wrap.py.  Do not edit.
// Every public HDF5 entry point: reports entry and exit to the simulator
// (two threads inside HDF5 at once is a violation) and is a scheduling point.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <hdf5.h>
#include <dlfcn.h>
#include "core.h"

namespace { struct In { In(const char *n) { sim::h5_enter(n); } ~In() { sim::h5_leave(); } };
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); } }

extern "C" {
herr_t H5open() { static auto r = real<decltype(&H5open)>("H5open"); In in("H5open"); return r(); }
herr_t H5close() { static auto r = real<decltype(&H5close)>("H5close"); In in("H5close"); return r(); }
herr_t H5dont_atexit() { static auto r = real<decltype(&H5dont_atexit)>("H5dont_atexit"); In in("H5dont_atexit"); return r(); }
herr_t H5garbage_collect() { static auto r = real<decltype(&H5garbage_collect)>("H5garbage_collect"); In in("H5garbage_collect"); return r(); }
herr_t H5set_free_list_limits(int a0, int a1, int a2, int a3, int a4, int a5) { static auto r = real<decltype(&H5set_free_list_limits)>("H5set_free_list_limits"); In in("H5set_free_list_limits"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5get_free_list_sizes(size_t * a0, size_t * a1, size_t * a2, size_t * a3) { static auto r = real<decltype(&H5get_free_list_sizes)>("H5get_free_list_sizes"); In in("H5get_free_list_sizes"); return r(a0, a1, a2, a3); }
herr_t H5get_alloc_stats(H5_alloc_stats_t * a0) { static auto r = real<decltype(&H5get_alloc_stats)>("H5get_alloc_stats"); In in("H5get_alloc_stats"); return r(a0); }
herr_t H5get_libversion(unsigned * a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5get_libversion)>("H5get_libversion"); In in("H5get_libversion"); return r(a0, a1, a2); }
herr_t H5check_version(unsigned a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5check_version)>("H5check_version"); In in("H5check_version"); return r(a0, a1, a2); }
herr_t H5is_library_threadsafe(hbool_t * a0) { static auto r = real<decltype(&H5is_library_threadsafe)>("H5is_library_threadsafe"); In in("H5is_library_threadsafe"); return r(a0); }
herr_t H5free_memory(void * a0) { static auto r = real<decltype(&H5free_memory)>("H5free_memory"); In in("H5free_memory"); return r(a0); }
void * H5allocate_memory(size_t a0, hbool_t a1) { static auto r = real<decltype(&H5allocate_memory)>("H5allocate_memory"); In in("H5allocate_memory"); return r(a0, a1); }
void * H5resize_memory(void * a0, size_t a1) { static auto r = real<decltype(&H5resize_memory)>("H5resize_memory"); In in("H5resize_memory"); return r(a0, a1); }
hid_t H5Iregister(H5I_type_t a0, const void * a1) { static auto r = real<decltype(&H5Iregister)>("H5Iregister"); In in("H5Iregister"); return r(a0, a1); }
void * H5Iobject_verify(hid_t a0, H5I_type_t a1) { static auto r = real<decltype(&H5Iobject_verify)>("H5Iobject_verify"); In in("H5Iobject_verify"); return r(a0, a1); }
void * H5Iremove_verify(hid_t a0, H5I_type_t a1) { static auto r = real<decltype(&H5Iremove_verify)>("H5Iremove_verify"); In in("H5Iremove_verify"); return r(a0, a1); }
H5I_type_t H5Iget_type(hid_t a0) { static auto r = real<decltype(&H5Iget_type)>("H5Iget_type"); In in("H5Iget_type"); return r(a0); }
hid_t H5Iget_file_id(hid_t a0) { static auto r = real<decltype(&H5Iget_file_id)>("H5Iget_file_id"); In in("H5Iget_file_id"); return r(a0); }
ssize_t H5Iget_name(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Iget_name)>("H5Iget_name"); In in("H5Iget_name"); return r(a0, a1, a2); }
int H5Iinc_ref(hid_t a0) { static auto r = real<decltype(&H5Iinc_ref)>("H5Iinc_ref"); In in("H5Iinc_ref"); return r(a0); }
int H5Idec_ref(hid_t a0) { static auto r = real<decltype(&H5Idec_ref)>("H5Idec_ref"); In in("H5Idec_ref"); return r(a0); }
int H5Iget_ref(hid_t a0) { static auto r = real<decltype(&H5Iget_ref)>("H5Iget_ref"); In in("H5Iget_ref"); return r(a0); }
H5I_type_t H5Iregister_type(size_t a0, unsigned a1, H5I_free_t a2) { static auto r = real<decltype(&H5Iregister_type)>("H5Iregister_type"); In in("H5Iregister_type"); return r(a0, a1, a2); }
herr_t H5Iclear_type(H5I_type_t a0, hbool_t a1) { static auto r = real<decltype(&H5Iclear_type)>("H5Iclear_type"); In in("H5Iclear_type"); return r(a0, a1); }
herr_t H5Idestroy_type(H5I_type_t a0) { static auto r = real<decltype(&H5Idestroy_type)>("H5Idestroy_type"); In in("H5Idestroy_type"); return r(a0); }
int H5Iinc_type_ref(H5I_type_t a0) { static auto r = real<decltype(&H5Iinc_type_ref)>("H5Iinc_type_ref"); In in("H5Iinc_type_ref"); return r(a0); }
int H5Idec_type_ref(H5I_type_t a0) { static auto r = real<decltype(&H5Idec_type_ref)>("H5Idec_type_ref"); In in("H5Idec_type_ref"); return r(a0); }
int H5Iget_type_ref(H5I_type_t a0) { static auto r = real<decltype(&H5Iget_type_ref)>("H5Iget_type_ref"); In in("H5Iget_type_ref"); return r(a0); }
void * H5Isearch(H5I_type_t a0, H5I_search_func_t a1, void * a2) { static auto r = real<decltype(&H5Isearch)>("H5Isearch"); In in("H5Isearch"); return r(a0, a1, a2); }
herr_t H5Inmembers(H5I_type_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Inmembers)>("H5Inmembers"); In in("H5Inmembers"); return r(a0, a1); }
htri_t H5Itype_exists(H5I_type_t a0) { static auto r = real<decltype(&H5Itype_exists)>("H5Itype_exists"); In in("H5Itype_exists"); return r(a0); }
htri_t H5Iis_valid(hid_t a0) { static auto r = real<decltype(&H5Iis_valid)>("H5Iis_valid"); In in("H5Iis_valid"); return r(a0); }
hid_t H5Tcreate(H5T_class_t a0, size_t a1) { static auto r = real<decltype(&H5Tcreate)>("H5Tcreate"); In in("H5Tcreate"); return r(a0, a1); }
hid_t H5Tcopy(hid_t a0) { static auto r = real<decltype(&H5Tcopy)>("H5Tcopy"); In in("H5Tcopy"); return r(a0); }
herr_t H5Tclose(hid_t a0) { static auto r = real<decltype(&H5Tclose)>("H5Tclose"); In in("H5Tclose"); return r(a0); }
htri_t H5Tequal(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Tequal)>("H5Tequal"); In in("H5Tequal"); return r(a0, a1); }
herr_t H5Tlock(hid_t a0) { static auto r = real<decltype(&H5Tlock)>("H5Tlock"); In in("H5Tlock"); return r(a0); }
herr_t H5Tcommit2(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Tcommit2)>("H5Tcommit2"); In in("H5Tcommit2"); return r(a0, a1, a2, a3, a4, a5); }
hid_t H5Topen2(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Topen2)>("H5Topen2"); In in("H5Topen2"); return r(a0, a1, a2); }
herr_t H5Tcommit_anon(hid_t a0, hid_t a1, hid_t a2, hid_t a3) { static auto r = real<decltype(&H5Tcommit_anon)>("H5Tcommit_anon"); In in("H5Tcommit_anon"); return r(a0, a1, a2, a3); }
hid_t H5Tget_create_plist(hid_t a0) { static auto r = real<decltype(&H5Tget_create_plist)>("H5Tget_create_plist"); In in("H5Tget_create_plist"); return r(a0); }
htri_t H5Tcommitted(hid_t a0) { static auto r = real<decltype(&H5Tcommitted)>("H5Tcommitted"); In in("H5Tcommitted"); return r(a0); }
herr_t H5Tencode(hid_t a0, void * a1, size_t * a2) { static auto r = real<decltype(&H5Tencode)>("H5Tencode"); In in("H5Tencode"); return r(a0, a1, a2); }
hid_t H5Tdecode(const void * a0) { static auto r = real<decltype(&H5Tdecode)>("H5Tdecode"); In in("H5Tdecode"); return r(a0); }
herr_t H5Tflush(hid_t a0) { static auto r = real<decltype(&H5Tflush)>("H5Tflush"); In in("H5Tflush"); return r(a0); }
herr_t H5Trefresh(hid_t a0) { static auto r = real<decltype(&H5Trefresh)>("H5Trefresh"); In in("H5Trefresh"); return r(a0); }
herr_t H5Tinsert(hid_t a0, const char * a1, size_t a2, hid_t a3) { static auto r = real<decltype(&H5Tinsert)>("H5Tinsert"); In in("H5Tinsert"); return r(a0, a1, a2, a3); }
herr_t H5Tpack(hid_t a0) { static auto r = real<decltype(&H5Tpack)>("H5Tpack"); In in("H5Tpack"); return r(a0); }
hid_t H5Tenum_create(hid_t a0) { static auto r = real<decltype(&H5Tenum_create)>("H5Tenum_create"); In in("H5Tenum_create"); return r(a0); }
herr_t H5Tenum_insert(hid_t a0, const char * a1, const void * a2) { static auto r = real<decltype(&H5Tenum_insert)>("H5Tenum_insert"); In in("H5Tenum_insert"); return r(a0, a1, a2); }
herr_t H5Tenum_nameof(hid_t a0, const void * a1, char * a2, size_t a3) { static auto r = real<decltype(&H5Tenum_nameof)>("H5Tenum_nameof"); In in("H5Tenum_nameof"); return r(a0, a1, a2, a3); }
herr_t H5Tenum_valueof(hid_t a0, const char * a1, void * a2) { static auto r = real<decltype(&H5Tenum_valueof)>("H5Tenum_valueof"); In in("H5Tenum_valueof"); return r(a0, a1, a2); }
hid_t H5Tvlen_create(hid_t a0) { static auto r = real<decltype(&H5Tvlen_create)>("H5Tvlen_create"); In in("H5Tvlen_create"); return r(a0); }
hid_t H5Tarray_create2(hid_t a0, unsigned a1, const hsize_t a2[ ]) { static auto r = real<decltype(&H5Tarray_create2)>("H5Tarray_create2"); In in("H5Tarray_create2"); return r(a0, a1, a2); }
int H5Tget_array_ndims(hid_t a0) { static auto r = real<decltype(&H5Tget_array_ndims)>("H5Tget_array_ndims"); In in("H5Tget_array_ndims"); return r(a0); }
int H5Tget_array_dims2(hid_t a0, hsize_t a1[]) { static auto r = real<decltype(&H5Tget_array_dims2)>("H5Tget_array_dims2"); In in("H5Tget_array_dims2"); return r(a0, a1); }
herr_t H5Tset_tag(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Tset_tag)>("H5Tset_tag"); In in("H5Tset_tag"); return r(a0, a1); }
char * H5Tget_tag(hid_t a0) { static auto r = real<decltype(&H5Tget_tag)>("H5Tget_tag"); In in("H5Tget_tag"); return r(a0); }
hid_t H5Tget_super(hid_t a0) { static auto r = real<decltype(&H5Tget_super)>("H5Tget_super"); In in("H5Tget_super"); return r(a0); }
H5T_class_t H5Tget_class(hid_t a0) { static auto r = real<decltype(&H5Tget_class)>("H5Tget_class"); In in("H5Tget_class"); return r(a0); }
htri_t H5Tdetect_class(hid_t a0, H5T_class_t a1) { static auto r = real<decltype(&H5Tdetect_class)>("H5Tdetect_class"); In in("H5Tdetect_class"); return r(a0, a1); }
size_t H5Tget_size(hid_t a0) { static auto r = real<decltype(&H5Tget_size)>("H5Tget_size"); In in("H5Tget_size"); return r(a0); }
H5T_order_t H5Tget_order(hid_t a0) { static auto r = real<decltype(&H5Tget_order)>("H5Tget_order"); In in("H5Tget_order"); return r(a0); }
size_t H5Tget_precision(hid_t a0) { static auto r = real<decltype(&H5Tget_precision)>("H5Tget_precision"); In in("H5Tget_precision"); return r(a0); }
int H5Tget_offset(hid_t a0) { static auto r = real<decltype(&H5Tget_offset)>("H5Tget_offset"); In in("H5Tget_offset"); return r(a0); }
herr_t H5Tget_pad(hid_t a0, H5T_pad_t * a1, H5T_pad_t * a2) { static auto r = real<decltype(&H5Tget_pad)>("H5Tget_pad"); In in("H5Tget_pad"); return r(a0, a1, a2); }
H5T_sign_t H5Tget_sign(hid_t a0) { static auto r = real<decltype(&H5Tget_sign)>("H5Tget_sign"); In in("H5Tget_sign"); return r(a0); }
herr_t H5Tget_fields(hid_t a0, size_t * a1, size_t * a2, size_t * a3, size_t * a4, size_t * a5) { static auto r = real<decltype(&H5Tget_fields)>("H5Tget_fields"); In in("H5Tget_fields"); return r(a0, a1, a2, a3, a4, a5); }
size_t H5Tget_ebias(hid_t a0) { static auto r = real<decltype(&H5Tget_ebias)>("H5Tget_ebias"); In in("H5Tget_ebias"); return r(a0); }
H5T_norm_t H5Tget_norm(hid_t a0) { static auto r = real<decltype(&H5Tget_norm)>("H5Tget_norm"); In in("H5Tget_norm"); return r(a0); }
H5T_pad_t H5Tget_inpad(hid_t a0) { static auto r = real<decltype(&H5Tget_inpad)>("H5Tget_inpad"); In in("H5Tget_inpad"); return r(a0); }
H5T_str_t H5Tget_strpad(hid_t a0) { static auto r = real<decltype(&H5Tget_strpad)>("H5Tget_strpad"); In in("H5Tget_strpad"); return r(a0); }
int H5Tget_nmembers(hid_t a0) { static auto r = real<decltype(&H5Tget_nmembers)>("H5Tget_nmembers"); In in("H5Tget_nmembers"); return r(a0); }
char * H5Tget_member_name(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Tget_member_name)>("H5Tget_member_name"); In in("H5Tget_member_name"); return r(a0, a1); }
int H5Tget_member_index(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Tget_member_index)>("H5Tget_member_index"); In in("H5Tget_member_index"); return r(a0, a1); }
size_t H5Tget_member_offset(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Tget_member_offset)>("H5Tget_member_offset"); In in("H5Tget_member_offset"); return r(a0, a1); }
H5T_class_t H5Tget_member_class(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Tget_member_class)>("H5Tget_member_class"); In in("H5Tget_member_class"); return r(a0, a1); }
hid_t H5Tget_member_type(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Tget_member_type)>("H5Tget_member_type"); In in("H5Tget_member_type"); return r(a0, a1); }
herr_t H5Tget_member_value(hid_t a0, unsigned a1, void * a2) { static auto r = real<decltype(&H5Tget_member_value)>("H5Tget_member_value"); In in("H5Tget_member_value"); return r(a0, a1, a2); }
H5T_cset_t H5Tget_cset(hid_t a0) { static auto r = real<decltype(&H5Tget_cset)>("H5Tget_cset"); In in("H5Tget_cset"); return r(a0); }
htri_t H5Tis_variable_str(hid_t a0) { static auto r = real<decltype(&H5Tis_variable_str)>("H5Tis_variable_str"); In in("H5Tis_variable_str"); return r(a0); }
hid_t H5Tget_native_type(hid_t a0, H5T_direction_t a1) { static auto r = real<decltype(&H5Tget_native_type)>("H5Tget_native_type"); In in("H5Tget_native_type"); return r(a0, a1); }
herr_t H5Tset_size(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Tset_size)>("H5Tset_size"); In in("H5Tset_size"); return r(a0, a1); }
herr_t H5Tset_order(hid_t a0, H5T_order_t a1) { static auto r = real<decltype(&H5Tset_order)>("H5Tset_order"); In in("H5Tset_order"); return r(a0, a1); }
herr_t H5Tset_precision(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Tset_precision)>("H5Tset_precision"); In in("H5Tset_precision"); return r(a0, a1); }
herr_t H5Tset_offset(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Tset_offset)>("H5Tset_offset"); In in("H5Tset_offset"); return r(a0, a1); }
herr_t H5Tset_pad(hid_t a0, H5T_pad_t a1, H5T_pad_t a2) { static auto r = real<decltype(&H5Tset_pad)>("H5Tset_pad"); In in("H5Tset_pad"); return r(a0, a1, a2); }
herr_t H5Tset_sign(hid_t a0, H5T_sign_t a1) { static auto r = real<decltype(&H5Tset_sign)>("H5Tset_sign"); In in("H5Tset_sign"); return r(a0, a1); }
herr_t H5Tset_fields(hid_t a0, size_t a1, size_t a2, size_t a3, size_t a4, size_t a5) { static auto r = real<decltype(&H5Tset_fields)>("H5Tset_fields"); In in("H5Tset_fields"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Tset_ebias(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Tset_ebias)>("H5Tset_ebias"); In in("H5Tset_ebias"); return r(a0, a1); }
herr_t H5Tset_norm(hid_t a0, H5T_norm_t a1) { static auto r = real<decltype(&H5Tset_norm)>("H5Tset_norm"); In in("H5Tset_norm"); return r(a0, a1); }
herr_t H5Tset_inpad(hid_t a0, H5T_pad_t a1) { static auto r = real<decltype(&H5Tset_inpad)>("H5Tset_inpad"); In in("H5Tset_inpad"); return r(a0, a1); }
herr_t H5Tset_cset(hid_t a0, H5T_cset_t a1) { static auto r = real<decltype(&H5Tset_cset)>("H5Tset_cset"); In in("H5Tset_cset"); return r(a0, a1); }
herr_t H5Tset_strpad(hid_t a0, H5T_str_t a1) { static auto r = real<decltype(&H5Tset_strpad)>("H5Tset_strpad"); In in("H5Tset_strpad"); return r(a0, a1); }
herr_t H5Tregister(H5T_pers_t a0, const char * a1, hid_t a2, hid_t a3, H5T_conv_t a4) { static auto r = real<decltype(&H5Tregister)>("H5Tregister"); In in("H5Tregister"); return r(a0, a1, a2, a3, a4); }
herr_t H5Tunregister(H5T_pers_t a0, const char * a1, hid_t a2, hid_t a3, H5T_conv_t a4) { static auto r = real<decltype(&H5Tunregister)>("H5Tunregister"); In in("H5Tunregister"); return r(a0, a1, a2, a3, a4); }
H5T_conv_t H5Tfind(hid_t a0, hid_t a1, H5T_cdata_t ** a2) { static auto r = real<decltype(&H5Tfind)>("H5Tfind"); In in("H5Tfind"); return r(a0, a1, a2); }
htri_t H5Tcompiler_conv(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Tcompiler_conv)>("H5Tcompiler_conv"); In in("H5Tcompiler_conv"); return r(a0, a1); }
herr_t H5Tconvert(hid_t a0, hid_t a1, size_t a2, void * a3, void * a4, hid_t a5) { static auto r = real<decltype(&H5Tconvert)>("H5Tconvert"); In in("H5Tconvert"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Tcommit1(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Tcommit1)>("H5Tcommit1"); In in("H5Tcommit1"); return r(a0, a1, a2); }
hid_t H5Topen1(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Topen1)>("H5Topen1"); In in("H5Topen1"); return r(a0, a1); }
hid_t H5Tarray_create1(hid_t a0, int a1, const hsize_t a2[ ], const int a3[ ]) { static auto r = real<decltype(&H5Tarray_create1)>("H5Tarray_create1"); In in("H5Tarray_create1"); return r(a0, a1, a2, a3); }
int H5Tget_array_dims1(hid_t a0, hsize_t a1[], int a2[]) { static auto r = real<decltype(&H5Tget_array_dims1)>("H5Tget_array_dims1"); In in("H5Tget_array_dims1"); return r(a0, a1, a2); }
herr_t H5Lmove(hid_t a0, const char * a1, hid_t a2, const char * a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Lmove)>("H5Lmove"); In in("H5Lmove"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Lcopy(hid_t a0, const char * a1, hid_t a2, const char * a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Lcopy)>("H5Lcopy"); In in("H5Lcopy"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Lcreate_hard(hid_t a0, const char * a1, hid_t a2, const char * a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Lcreate_hard)>("H5Lcreate_hard"); In in("H5Lcreate_hard"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Lcreate_soft(const char * a0, hid_t a1, const char * a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Lcreate_soft)>("H5Lcreate_soft"); In in("H5Lcreate_soft"); return r(a0, a1, a2, a3, a4); }
herr_t H5Ldelete(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Ldelete)>("H5Ldelete"); In in("H5Ldelete"); return r(a0, a1, a2); }
herr_t H5Ldelete_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, hid_t a5) { static auto r = real<decltype(&H5Ldelete_by_idx)>("H5Ldelete_by_idx"); In in("H5Ldelete_by_idx"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Lget_val(hid_t a0, const char * a1, void * a2, size_t a3, hid_t a4) { static auto r = real<decltype(&H5Lget_val)>("H5Lget_val"); In in("H5Lget_val"); return r(a0, a1, a2, a3, a4); }
herr_t H5Lget_val_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, void * a5, size_t a6, hid_t a7) { static auto r = real<decltype(&H5Lget_val_by_idx)>("H5Lget_val_by_idx"); In in("H5Lget_val_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
htri_t H5Lexists(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Lexists)>("H5Lexists"); In in("H5Lexists"); return r(a0, a1, a2); }
herr_t H5Lget_info(hid_t a0, const char * a1, H5L_info_t * a2, hid_t a3) { static auto r = real<decltype(&H5Lget_info)>("H5Lget_info"); In in("H5Lget_info"); return r(a0, a1, a2, a3); }
herr_t H5Lget_info_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5L_info_t * a5, hid_t a6) { static auto r = real<decltype(&H5Lget_info_by_idx)>("H5Lget_info_by_idx"); In in("H5Lget_info_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6); }
ssize_t H5Lget_name_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, char * a5, size_t a6, hid_t a7) { static auto r = real<decltype(&H5Lget_name_by_idx)>("H5Lget_name_by_idx"); In in("H5Lget_name_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Literate(hid_t a0, H5_index_t a1, H5_iter_order_t a2, hsize_t * a3, H5L_iterate_t a4, void * a5) { static auto r = real<decltype(&H5Literate)>("H5Literate"); In in("H5Literate"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Literate_by_name(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t * a4, H5L_iterate_t a5, void * a6, hid_t a7) { static auto r = real<decltype(&H5Literate_by_name)>("H5Literate_by_name"); In in("H5Literate_by_name"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Lvisit(hid_t a0, H5_index_t a1, H5_iter_order_t a2, H5L_iterate_t a3, void * a4) { static auto r = real<decltype(&H5Lvisit)>("H5Lvisit"); In in("H5Lvisit"); return r(a0, a1, a2, a3, a4); }
herr_t H5Lvisit_by_name(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, H5L_iterate_t a4, void * a5, hid_t a6) { static auto r = real<decltype(&H5Lvisit_by_name)>("H5Lvisit_by_name"); In in("H5Lvisit_by_name"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Lcreate_ud(hid_t a0, const char * a1, H5L_type_t a2, const void * a3, size_t a4, hid_t a5, hid_t a6) { static auto r = real<decltype(&H5Lcreate_ud)>("H5Lcreate_ud"); In in("H5Lcreate_ud"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Lregister(const H5L_class_t * a0) { static auto r = real<decltype(&H5Lregister)>("H5Lregister"); In in("H5Lregister"); return r(a0); }
herr_t H5Lunregister(H5L_type_t a0) { static auto r = real<decltype(&H5Lunregister)>("H5Lunregister"); In in("H5Lunregister"); return r(a0); }
htri_t H5Lis_registered(H5L_type_t a0) { static auto r = real<decltype(&H5Lis_registered)>("H5Lis_registered"); In in("H5Lis_registered"); return r(a0); }
herr_t H5Lunpack_elink_val(const void * a0, size_t a1, unsigned * a2, const char ** a3, const char ** a4) { static auto r = real<decltype(&H5Lunpack_elink_val)>("H5Lunpack_elink_val"); In in("H5Lunpack_elink_val"); return r(a0, a1, a2, a3, a4); }
herr_t H5Lcreate_external(const char * a0, const char * a1, hid_t a2, const char * a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Lcreate_external)>("H5Lcreate_external"); In in("H5Lcreate_external"); return r(a0, a1, a2, a3, a4, a5); }
hid_t H5Oopen(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Oopen)>("H5Oopen"); In in("H5Oopen"); return r(a0, a1, a2); }
hid_t H5Oopen_by_addr(hid_t a0, haddr_t a1) { static auto r = real<decltype(&H5Oopen_by_addr)>("H5Oopen_by_addr"); In in("H5Oopen_by_addr"); return r(a0, a1); }
hid_t H5Oopen_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, hid_t a5) { static auto r = real<decltype(&H5Oopen_by_idx)>("H5Oopen_by_idx"); In in("H5Oopen_by_idx"); return r(a0, a1, a2, a3, a4, a5); }
htri_t H5Oexists_by_name(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Oexists_by_name)>("H5Oexists_by_name"); In in("H5Oexists_by_name"); return r(a0, a1, a2); }
herr_t H5Oget_info2(hid_t a0, H5O_info_t * a1, unsigned a2) { static auto r = real<decltype(&H5Oget_info2)>("H5Oget_info2"); In in("H5Oget_info2"); return r(a0, a1, a2); }
herr_t H5Oget_info_by_name2(hid_t a0, const char * a1, H5O_info_t * a2, unsigned a3, hid_t a4) { static auto r = real<decltype(&H5Oget_info_by_name2)>("H5Oget_info_by_name2"); In in("H5Oget_info_by_name2"); return r(a0, a1, a2, a3, a4); }
herr_t H5Oget_info_by_idx2(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5O_info_t * a5, unsigned a6, hid_t a7) { static auto r = real<decltype(&H5Oget_info_by_idx2)>("H5Oget_info_by_idx2"); In in("H5Oget_info_by_idx2"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Olink(hid_t a0, hid_t a1, const char * a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Olink)>("H5Olink"); In in("H5Olink"); return r(a0, a1, a2, a3, a4); }
herr_t H5Oincr_refcount(hid_t a0) { static auto r = real<decltype(&H5Oincr_refcount)>("H5Oincr_refcount"); In in("H5Oincr_refcount"); return r(a0); }
herr_t H5Odecr_refcount(hid_t a0) { static auto r = real<decltype(&H5Odecr_refcount)>("H5Odecr_refcount"); In in("H5Odecr_refcount"); return r(a0); }
herr_t H5Ocopy(hid_t a0, const char * a1, hid_t a2, const char * a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Ocopy)>("H5Ocopy"); In in("H5Ocopy"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Oset_comment(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Oset_comment)>("H5Oset_comment"); In in("H5Oset_comment"); return r(a0, a1); }
herr_t H5Oset_comment_by_name(hid_t a0, const char * a1, const char * a2, hid_t a3) { static auto r = real<decltype(&H5Oset_comment_by_name)>("H5Oset_comment_by_name"); In in("H5Oset_comment_by_name"); return r(a0, a1, a2, a3); }
ssize_t H5Oget_comment(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Oget_comment)>("H5Oget_comment"); In in("H5Oget_comment"); return r(a0, a1, a2); }
ssize_t H5Oget_comment_by_name(hid_t a0, const char * a1, char * a2, size_t a3, hid_t a4) { static auto r = real<decltype(&H5Oget_comment_by_name)>("H5Oget_comment_by_name"); In in("H5Oget_comment_by_name"); return r(a0, a1, a2, a3, a4); }
herr_t H5Ovisit2(hid_t a0, H5_index_t a1, H5_iter_order_t a2, H5O_iterate_t a3, void * a4, unsigned a5) { static auto r = real<decltype(&H5Ovisit2)>("H5Ovisit2"); In in("H5Ovisit2"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Ovisit_by_name2(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, H5O_iterate_t a4, void * a5, unsigned a6, hid_t a7) { static auto r = real<decltype(&H5Ovisit_by_name2)>("H5Ovisit_by_name2"); In in("H5Ovisit_by_name2"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Oclose(hid_t a0) { static auto r = real<decltype(&H5Oclose)>("H5Oclose"); In in("H5Oclose"); return r(a0); }
herr_t H5Oflush(hid_t a0) { static auto r = real<decltype(&H5Oflush)>("H5Oflush"); In in("H5Oflush"); return r(a0); }
herr_t H5Orefresh(hid_t a0) { static auto r = real<decltype(&H5Orefresh)>("H5Orefresh"); In in("H5Orefresh"); return r(a0); }
herr_t H5Odisable_mdc_flushes(hid_t a0) { static auto r = real<decltype(&H5Odisable_mdc_flushes)>("H5Odisable_mdc_flushes"); In in("H5Odisable_mdc_flushes"); return r(a0); }
herr_t H5Oenable_mdc_flushes(hid_t a0) { static auto r = real<decltype(&H5Oenable_mdc_flushes)>("H5Oenable_mdc_flushes"); In in("H5Oenable_mdc_flushes"); return r(a0); }
herr_t H5Oare_mdc_flushes_disabled(hid_t a0, hbool_t * a1) { static auto r = real<decltype(&H5Oare_mdc_flushes_disabled)>("H5Oare_mdc_flushes_disabled"); In in("H5Oare_mdc_flushes_disabled"); return r(a0, a1); }
herr_t H5Oget_info(hid_t a0, H5O_info_t * a1) { static auto r = real<decltype(&H5Oget_info)>("H5Oget_info"); In in("H5Oget_info"); return r(a0, a1); }
herr_t H5Oget_info_by_name(hid_t a0, const char * a1, H5O_info_t * a2, hid_t a3) { static auto r = real<decltype(&H5Oget_info_by_name)>("H5Oget_info_by_name"); In in("H5Oget_info_by_name"); return r(a0, a1, a2, a3); }
herr_t H5Oget_info_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5O_info_t * a5, hid_t a6) { static auto r = real<decltype(&H5Oget_info_by_idx)>("H5Oget_info_by_idx"); In in("H5Oget_info_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Ovisit(hid_t a0, H5_index_t a1, H5_iter_order_t a2, H5O_iterate_t a3, void * a4) { static auto r = real<decltype(&H5Ovisit)>("H5Ovisit"); In in("H5Ovisit"); return r(a0, a1, a2, a3, a4); }
herr_t H5Ovisit_by_name(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, H5O_iterate_t a4, void * a5, hid_t a6) { static auto r = real<decltype(&H5Ovisit_by_name)>("H5Ovisit_by_name"); In in("H5Ovisit_by_name"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Oget_info1(hid_t a0, H5O_info_t * a1) { static auto r = real<decltype(&H5Oget_info1)>("H5Oget_info1"); In in("H5Oget_info1"); return r(a0, a1); }
herr_t H5Oget_info_by_name1(hid_t a0, const char * a1, H5O_info_t * a2, hid_t a3) { static auto r = real<decltype(&H5Oget_info_by_name1)>("H5Oget_info_by_name1"); In in("H5Oget_info_by_name1"); return r(a0, a1, a2, a3); }
herr_t H5Oget_info_by_idx1(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5O_info_t * a5, hid_t a6) { static auto r = real<decltype(&H5Oget_info_by_idx1)>("H5Oget_info_by_idx1"); In in("H5Oget_info_by_idx1"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Ovisit1(hid_t a0, H5_index_t a1, H5_iter_order_t a2, H5O_iterate_t a3, void * a4) { static auto r = real<decltype(&H5Ovisit1)>("H5Ovisit1"); In in("H5Ovisit1"); return r(a0, a1, a2, a3, a4); }
herr_t H5Ovisit_by_name1(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, H5O_iterate_t a4, void * a5, hid_t a6) { static auto r = real<decltype(&H5Ovisit_by_name1)>("H5Ovisit_by_name1"); In in("H5Ovisit_by_name1"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Aclose(hid_t a0) { static auto r = real<decltype(&H5Aclose)>("H5Aclose"); In in("H5Aclose"); return r(a0); }
hid_t H5Acreate2(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4, hid_t a5) { static auto r = real<decltype(&H5Acreate2)>("H5Acreate2"); In in("H5Acreate2"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2, a3, a4, a5); }
hid_t H5Acreate_by_name(hid_t a0, const char * a1, const char * a2, hid_t a3, hid_t a4, hid_t a5, hid_t a6, hid_t a7) { static auto r = real<decltype(&H5Acreate_by_name)>("H5Acreate_by_name"); In in("H5Acreate_by_name"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Adelete(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Adelete)>("H5Adelete"); In in("H5Adelete"); return r(a0, a1); }
herr_t H5Adelete_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, hid_t a5) { static auto r = real<decltype(&H5Adelete_by_idx)>("H5Adelete_by_idx"); In in("H5Adelete_by_idx"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Adelete_by_name(hid_t a0, const char * a1, const char * a2, hid_t a3) { static auto r = real<decltype(&H5Adelete_by_name)>("H5Adelete_by_name"); In in("H5Adelete_by_name"); return r(a0, a1, a2, a3); }
htri_t H5Aexists(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Aexists)>("H5Aexists"); In in("H5Aexists"); return r(a0, a1); }
htri_t H5Aexists_by_name(hid_t a0, const char * a1, const char * a2, hid_t a3) { static auto r = real<decltype(&H5Aexists_by_name)>("H5Aexists_by_name"); In in("H5Aexists_by_name"); return r(a0, a1, a2, a3); }
hid_t H5Aget_create_plist(hid_t a0) { static auto r = real<decltype(&H5Aget_create_plist)>("H5Aget_create_plist"); In in("H5Aget_create_plist"); return r(a0); }
herr_t H5Aget_info(hid_t a0, H5A_info_t * a1) { static auto r = real<decltype(&H5Aget_info)>("H5Aget_info"); In in("H5Aget_info"); return r(a0, a1); }
herr_t H5Aget_info_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5A_info_t * a5, hid_t a6) { static auto r = real<decltype(&H5Aget_info_by_idx)>("H5Aget_info_by_idx"); In in("H5Aget_info_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Aget_info_by_name(hid_t a0, const char * a1, const char * a2, H5A_info_t * a3, hid_t a4) { static auto r = real<decltype(&H5Aget_info_by_name)>("H5Aget_info_by_name"); In in("H5Aget_info_by_name"); return r(a0, a1, a2, a3, a4); }
ssize_t H5Aget_name(hid_t a0, size_t a1, char * a2) { static auto r = real<decltype(&H5Aget_name)>("H5Aget_name"); In in("H5Aget_name"); return r(a0, a1, a2); }
ssize_t H5Aget_name_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, char * a5, size_t a6, hid_t a7) { static auto r = real<decltype(&H5Aget_name_by_idx)>("H5Aget_name_by_idx"); In in("H5Aget_name_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
hid_t H5Aget_space(hid_t a0) { static auto r = real<decltype(&H5Aget_space)>("H5Aget_space"); In in("H5Aget_space"); if (sim::h5_fail(false)) return -1; return r(a0); }
hsize_t H5Aget_storage_size(hid_t a0) { static auto r = real<decltype(&H5Aget_storage_size)>("H5Aget_storage_size"); In in("H5Aget_storage_size"); return r(a0); }
hid_t H5Aget_type(hid_t a0) { static auto r = real<decltype(&H5Aget_type)>("H5Aget_type"); In in("H5Aget_type"); if (sim::h5_fail(false)) return -1; return r(a0); }
herr_t H5Aiterate2(hid_t a0, H5_index_t a1, H5_iter_order_t a2, hsize_t * a3, H5A_operator2_t a4, void * a5) { static auto r = real<decltype(&H5Aiterate2)>("H5Aiterate2"); In in("H5Aiterate2"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Aiterate_by_name(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t * a4, H5A_operator2_t a5, void * a6, hid_t a7) { static auto r = real<decltype(&H5Aiterate_by_name)>("H5Aiterate_by_name"); In in("H5Aiterate_by_name"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
hid_t H5Aopen(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Aopen)>("H5Aopen"); In in("H5Aopen"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2); }
hid_t H5Aopen_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, hid_t a5, hid_t a6) { static auto r = real<decltype(&H5Aopen_by_idx)>("H5Aopen_by_idx"); In in("H5Aopen_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6); }
hid_t H5Aopen_by_name(hid_t a0, const char * a1, const char * a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Aopen_by_name)>("H5Aopen_by_name"); In in("H5Aopen_by_name"); return r(a0, a1, a2, a3, a4); }
herr_t H5Aread(hid_t a0, hid_t a1, void * a2) { static auto r = real<decltype(&H5Aread)>("H5Aread"); In in("H5Aread"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2); }
herr_t H5Arename(hid_t a0, const char * a1, const char * a2) { static auto r = real<decltype(&H5Arename)>("H5Arename"); In in("H5Arename"); return r(a0, a1, a2); }
herr_t H5Awrite(hid_t a0, hid_t a1, const void * a2) { static auto r = real<decltype(&H5Awrite)>("H5Awrite"); In in("H5Awrite"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2); }
herr_t H5Arename_by_name(hid_t a0, const char * a1, const char * a2, const char * a3, hid_t a4) { static auto r = real<decltype(&H5Arename_by_name)>("H5Arename_by_name"); In in("H5Arename_by_name"); return r(a0, a1, a2, a3, a4); }
hid_t H5Acreate1(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Acreate1)>("H5Acreate1"); In in("H5Acreate1"); return r(a0, a1, a2, a3, a4); }
int H5Aget_num_attrs(hid_t a0) { static auto r = real<decltype(&H5Aget_num_attrs)>("H5Aget_num_attrs"); In in("H5Aget_num_attrs"); return r(a0); }
herr_t H5Aiterate1(hid_t a0, unsigned * a1, H5A_operator1_t a2, void * a3) { static auto r = real<decltype(&H5Aiterate1)>("H5Aiterate1"); In in("H5Aiterate1"); return r(a0, a1, a2, a3); }
hid_t H5Aopen_idx(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Aopen_idx)>("H5Aopen_idx"); In in("H5Aopen_idx"); return r(a0, a1); }
hid_t H5Aopen_name(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Aopen_name)>("H5Aopen_name"); In in("H5Aopen_name"); return r(a0, a1); }
hid_t H5Dcreate2(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4, hid_t a5, hid_t a6) { static auto r = real<decltype(&H5Dcreate2)>("H5Dcreate2"); In in("H5Dcreate2"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2, a3, a4, a5, a6); }
hid_t H5Dcreate_anon(hid_t a0, hid_t a1, hid_t a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Dcreate_anon)>("H5Dcreate_anon"); In in("H5Dcreate_anon"); return r(a0, a1, a2, a3, a4); }
hid_t H5Dopen2(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Dopen2)>("H5Dopen2"); In in("H5Dopen2"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2); }
hid_t H5Dget_space(hid_t a0) { static auto r = real<decltype(&H5Dget_space)>("H5Dget_space"); In in("H5Dget_space"); if (sim::h5_fail(false)) return -1; return r(a0); }
herr_t H5Dget_space_status(hid_t a0, H5D_space_status_t * a1) { static auto r = real<decltype(&H5Dget_space_status)>("H5Dget_space_status"); In in("H5Dget_space_status"); return r(a0, a1); }
hid_t H5Dget_type(hid_t a0) { static auto r = real<decltype(&H5Dget_type)>("H5Dget_type"); In in("H5Dget_type"); if (sim::h5_fail(false)) return -1; return r(a0); }
hid_t H5Dget_create_plist(hid_t a0) { static auto r = real<decltype(&H5Dget_create_plist)>("H5Dget_create_plist"); In in("H5Dget_create_plist"); return r(a0); }
hid_t H5Dget_access_plist(hid_t a0) { static auto r = real<decltype(&H5Dget_access_plist)>("H5Dget_access_plist"); In in("H5Dget_access_plist"); return r(a0); }
hsize_t H5Dget_storage_size(hid_t a0) { static auto r = real<decltype(&H5Dget_storage_size)>("H5Dget_storage_size"); In in("H5Dget_storage_size"); return r(a0); }
herr_t H5Dget_chunk_storage_size(hid_t a0, const hsize_t * a1, hsize_t * a2) { static auto r = real<decltype(&H5Dget_chunk_storage_size)>("H5Dget_chunk_storage_size"); In in("H5Dget_chunk_storage_size"); return r(a0, a1, a2); }
herr_t H5Dget_num_chunks(hid_t a0, hid_t a1, hsize_t * a2) { static auto r = real<decltype(&H5Dget_num_chunks)>("H5Dget_num_chunks"); In in("H5Dget_num_chunks"); return r(a0, a1, a2); }
herr_t H5Dget_chunk_info_by_coord(hid_t a0, const hsize_t * a1, unsigned * a2, haddr_t * a3, hsize_t * a4) { static auto r = real<decltype(&H5Dget_chunk_info_by_coord)>("H5Dget_chunk_info_by_coord"); In in("H5Dget_chunk_info_by_coord"); return r(a0, a1, a2, a3, a4); }
herr_t H5Dchunk_iter(hid_t a0, hid_t a1, H5D_chunk_iter_op_t a2, void * a3) { static auto r = real<decltype(&H5Dchunk_iter)>("H5Dchunk_iter"); In in("H5Dchunk_iter"); return r(a0, a1, a2, a3); }
herr_t H5Dget_chunk_info(hid_t a0, hid_t a1, hsize_t a2, hsize_t * a3, unsigned * a4, haddr_t * a5, hsize_t * a6) { static auto r = real<decltype(&H5Dget_chunk_info)>("H5Dget_chunk_info"); In in("H5Dget_chunk_info"); return r(a0, a1, a2, a3, a4, a5, a6); }
haddr_t H5Dget_offset(hid_t a0) { static auto r = real<decltype(&H5Dget_offset)>("H5Dget_offset"); In in("H5Dget_offset"); return r(a0); }
herr_t H5Dread(hid_t a0, hid_t a1, hid_t a2, hid_t a3, hid_t a4, void * a5) { static auto r = real<decltype(&H5Dread)>("H5Dread"); In in("H5Dread"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Dwrite(hid_t a0, hid_t a1, hid_t a2, hid_t a3, hid_t a4, const void * a5) { static auto r = real<decltype(&H5Dwrite)>("H5Dwrite"); In in("H5Dwrite"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Dwrite_chunk(hid_t a0, hid_t a1, uint32_t a2, const hsize_t * a3, size_t a4, const void * a5) { static auto r = real<decltype(&H5Dwrite_chunk)>("H5Dwrite_chunk"); In in("H5Dwrite_chunk"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Dread_chunk(hid_t a0, hid_t a1, const hsize_t * a2, uint32_t * a3, void * a4) { static auto r = real<decltype(&H5Dread_chunk)>("H5Dread_chunk"); In in("H5Dread_chunk"); return r(a0, a1, a2, a3, a4); }
herr_t H5Diterate(void * a0, hid_t a1, hid_t a2, H5D_operator_t a3, void * a4) { static auto r = real<decltype(&H5Diterate)>("H5Diterate"); In in("H5Diterate"); return r(a0, a1, a2, a3, a4); }
herr_t H5Dvlen_reclaim(hid_t a0, hid_t a1, hid_t a2, void * a3) { static auto r = real<decltype(&H5Dvlen_reclaim)>("H5Dvlen_reclaim"); In in("H5Dvlen_reclaim"); return r(a0, a1, a2, a3); }
herr_t H5Dvlen_get_buf_size(hid_t a0, hid_t a1, hid_t a2, hsize_t * a3) { static auto r = real<decltype(&H5Dvlen_get_buf_size)>("H5Dvlen_get_buf_size"); In in("H5Dvlen_get_buf_size"); return r(a0, a1, a2, a3); }
herr_t H5Dfill(const void * a0, hid_t a1, void * a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Dfill)>("H5Dfill"); In in("H5Dfill"); return r(a0, a1, a2, a3, a4); }
herr_t H5Dset_extent(hid_t a0, const hsize_t a1[]) { static auto r = real<decltype(&H5Dset_extent)>("H5Dset_extent"); In in("H5Dset_extent"); return r(a0, a1); }
herr_t H5Dflush(hid_t a0) { static auto r = real<decltype(&H5Dflush)>("H5Dflush"); In in("H5Dflush"); return r(a0); }
herr_t H5Drefresh(hid_t a0) { static auto r = real<decltype(&H5Drefresh)>("H5Drefresh"); In in("H5Drefresh"); return r(a0); }
herr_t H5Dscatter(H5D_scatter_func_t a0, void * a1, hid_t a2, hid_t a3, void * a4) { static auto r = real<decltype(&H5Dscatter)>("H5Dscatter"); In in("H5Dscatter"); return r(a0, a1, a2, a3, a4); }
herr_t H5Dgather(hid_t a0, const void * a1, hid_t a2, size_t a3, void * a4, H5D_gather_func_t a5, void * a6) { static auto r = real<decltype(&H5Dgather)>("H5Dgather"); In in("H5Dgather"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Dclose(hid_t a0) { static auto r = real<decltype(&H5Dclose)>("H5Dclose"); In in("H5Dclose"); return r(a0); }
herr_t H5Ddebug(hid_t a0) { static auto r = real<decltype(&H5Ddebug)>("H5Ddebug"); In in("H5Ddebug"); return r(a0); }
herr_t H5Dformat_convert(hid_t a0) { static auto r = real<decltype(&H5Dformat_convert)>("H5Dformat_convert"); In in("H5Dformat_convert"); return r(a0); }
herr_t H5Dget_chunk_index_type(hid_t a0, H5D_chunk_index_t * a1) { static auto r = real<decltype(&H5Dget_chunk_index_type)>("H5Dget_chunk_index_type"); In in("H5Dget_chunk_index_type"); return r(a0, a1); }
hid_t H5Dcreate1(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Dcreate1)>("H5Dcreate1"); In in("H5Dcreate1"); return r(a0, a1, a2, a3, a4); }
hid_t H5Dopen1(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Dopen1)>("H5Dopen1"); In in("H5Dopen1"); return r(a0, a1); }
herr_t H5Dextend(hid_t a0, const hsize_t a1[]) { static auto r = real<decltype(&H5Dextend)>("H5Dextend"); In in("H5Dextend"); return r(a0, a1); }
hid_t H5Eregister_class(const char * a0, const char * a1, const char * a2) { static auto r = real<decltype(&H5Eregister_class)>("H5Eregister_class"); In in("H5Eregister_class"); return r(a0, a1, a2); }
herr_t H5Eunregister_class(hid_t a0) { static auto r = real<decltype(&H5Eunregister_class)>("H5Eunregister_class"); In in("H5Eunregister_class"); return r(a0); }
herr_t H5Eclose_msg(hid_t a0) { static auto r = real<decltype(&H5Eclose_msg)>("H5Eclose_msg"); In in("H5Eclose_msg"); return r(a0); }
hid_t H5Ecreate_msg(hid_t a0, H5E_type_t a1, const char * a2) { static auto r = real<decltype(&H5Ecreate_msg)>("H5Ecreate_msg"); In in("H5Ecreate_msg"); return r(a0, a1, a2); }
hid_t H5Ecreate_stack() { static auto r = real<decltype(&H5Ecreate_stack)>("H5Ecreate_stack"); In in("H5Ecreate_stack"); return r(); }
hid_t H5Eget_current_stack() { static auto r = real<decltype(&H5Eget_current_stack)>("H5Eget_current_stack"); In in("H5Eget_current_stack"); return r(); }
herr_t H5Eclose_stack(hid_t a0) { static auto r = real<decltype(&H5Eclose_stack)>("H5Eclose_stack"); In in("H5Eclose_stack"); return r(a0); }
ssize_t H5Eget_class_name(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Eget_class_name)>("H5Eget_class_name"); In in("H5Eget_class_name"); return r(a0, a1, a2); }
herr_t H5Eset_current_stack(hid_t a0) { static auto r = real<decltype(&H5Eset_current_stack)>("H5Eset_current_stack"); In in("H5Eset_current_stack"); return r(a0); }
herr_t H5Epop(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Epop)>("H5Epop"); In in("H5Epop"); return r(a0, a1); }
herr_t H5Eprint2(hid_t a0, FILE * a1) { static auto r = real<decltype(&H5Eprint2)>("H5Eprint2"); In in("H5Eprint2"); return r(a0, a1); }
herr_t H5Ewalk2(hid_t a0, H5E_direction_t a1, H5E_walk2_t a2, void * a3) { static auto r = real<decltype(&H5Ewalk2)>("H5Ewalk2"); In in("H5Ewalk2"); return r(a0, a1, a2, a3); }
herr_t H5Eget_auto2(hid_t a0, H5E_auto2_t * a1, void ** a2) { static auto r = real<decltype(&H5Eget_auto2)>("H5Eget_auto2"); In in("H5Eget_auto2"); return r(a0, a1, a2); }
herr_t H5Eset_auto2(hid_t a0, H5E_auto2_t a1, void * a2) { static auto r = real<decltype(&H5Eset_auto2)>("H5Eset_auto2"); In in("H5Eset_auto2"); return r(a0, a1, a2); }
herr_t H5Eclear2(hid_t a0) { static auto r = real<decltype(&H5Eclear2)>("H5Eclear2"); In in("H5Eclear2"); return r(a0); }
herr_t H5Eauto_is_v2(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Eauto_is_v2)>("H5Eauto_is_v2"); In in("H5Eauto_is_v2"); return r(a0, a1); }
ssize_t H5Eget_msg(hid_t a0, H5E_type_t * a1, char * a2, size_t a3) { static auto r = real<decltype(&H5Eget_msg)>("H5Eget_msg"); In in("H5Eget_msg"); return r(a0, a1, a2, a3); }
ssize_t H5Eget_num(hid_t a0) { static auto r = real<decltype(&H5Eget_num)>("H5Eget_num"); In in("H5Eget_num"); return r(a0); }
herr_t H5Eclear1() { static auto r = real<decltype(&H5Eclear1)>("H5Eclear1"); In in("H5Eclear1"); return r(); }
herr_t H5Eget_auto1(H5E_auto1_t * a0, void ** a1) { static auto r = real<decltype(&H5Eget_auto1)>("H5Eget_auto1"); In in("H5Eget_auto1"); return r(a0, a1); }
herr_t H5Epush1(const char * a0, const char * a1, unsigned a2, H5E_major_t a3, H5E_minor_t a4, const char * a5) { static auto r = real<decltype(&H5Epush1)>("H5Epush1"); In in("H5Epush1"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Eprint1(FILE * a0) { static auto r = real<decltype(&H5Eprint1)>("H5Eprint1"); In in("H5Eprint1"); return r(a0); }
herr_t H5Eset_auto1(H5E_auto1_t a0, void * a1) { static auto r = real<decltype(&H5Eset_auto1)>("H5Eset_auto1"); In in("H5Eset_auto1"); return r(a0, a1); }
herr_t H5Ewalk1(H5E_direction_t a0, H5E_walk1_t a1, void * a2) { static auto r = real<decltype(&H5Ewalk1)>("H5Ewalk1"); In in("H5Ewalk1"); return r(a0, a1, a2); }
char * H5Eget_major(H5E_major_t a0) { static auto r = real<decltype(&H5Eget_major)>("H5Eget_major"); In in("H5Eget_major"); return r(a0); }
char * H5Eget_minor(H5E_minor_t a0) { static auto r = real<decltype(&H5Eget_minor)>("H5Eget_minor"); In in("H5Eget_minor"); return r(a0); }
htri_t H5Fis_hdf5(const char * a0) { static auto r = real<decltype(&H5Fis_hdf5)>("H5Fis_hdf5"); In in("H5Fis_hdf5"); return r(a0); }
hid_t H5Fcreate(const char * a0, unsigned a1, hid_t a2, hid_t a3) { static auto r = real<decltype(&H5Fcreate)>("H5Fcreate"); In in("H5Fcreate"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2, a3); }
hid_t H5Fopen(const char * a0, unsigned a1, hid_t a2) { static auto r = real<decltype(&H5Fopen)>("H5Fopen"); In in("H5Fopen"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2); }
hid_t H5Freopen(hid_t a0) { static auto r = real<decltype(&H5Freopen)>("H5Freopen"); In in("H5Freopen"); return r(a0); }
herr_t H5Fflush(hid_t a0, H5F_scope_t a1) { static auto r = real<decltype(&H5Fflush)>("H5Fflush"); In in("H5Fflush"); if (sim::h5_fail(true)) return -1; return r(a0, a1); }
herr_t H5Fclose(hid_t a0) { static auto r = real<decltype(&H5Fclose)>("H5Fclose"); In in("H5Fclose"); return r(a0); }
hid_t H5Fget_create_plist(hid_t a0) { static auto r = real<decltype(&H5Fget_create_plist)>("H5Fget_create_plist"); In in("H5Fget_create_plist"); return r(a0); }
hid_t H5Fget_access_plist(hid_t a0) { static auto r = real<decltype(&H5Fget_access_plist)>("H5Fget_access_plist"); In in("H5Fget_access_plist"); return r(a0); }
herr_t H5Fget_intent(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Fget_intent)>("H5Fget_intent"); In in("H5Fget_intent"); return r(a0, a1); }
ssize_t H5Fget_obj_count(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Fget_obj_count)>("H5Fget_obj_count"); In in("H5Fget_obj_count"); return r(a0, a1); }
ssize_t H5Fget_obj_ids(hid_t a0, unsigned a1, size_t a2, hid_t * a3) { static auto r = real<decltype(&H5Fget_obj_ids)>("H5Fget_obj_ids"); In in("H5Fget_obj_ids"); return r(a0, a1, a2, a3); }
herr_t H5Fget_vfd_handle(hid_t a0, hid_t a1, void ** a2) { static auto r = real<decltype(&H5Fget_vfd_handle)>("H5Fget_vfd_handle"); In in("H5Fget_vfd_handle"); return r(a0, a1, a2); }
herr_t H5Fmount(hid_t a0, const char * a1, hid_t a2, hid_t a3) { static auto r = real<decltype(&H5Fmount)>("H5Fmount"); In in("H5Fmount"); return r(a0, a1, a2, a3); }
herr_t H5Funmount(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Funmount)>("H5Funmount"); In in("H5Funmount"); return r(a0, a1); }
hssize_t H5Fget_freespace(hid_t a0) { static auto r = real<decltype(&H5Fget_freespace)>("H5Fget_freespace"); In in("H5Fget_freespace"); return r(a0); }
herr_t H5Fget_filesize(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Fget_filesize)>("H5Fget_filesize"); In in("H5Fget_filesize"); return r(a0, a1); }
herr_t H5Fget_eoa(hid_t a0, haddr_t * a1) { static auto r = real<decltype(&H5Fget_eoa)>("H5Fget_eoa"); In in("H5Fget_eoa"); return r(a0, a1); }
herr_t H5Fincrement_filesize(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Fincrement_filesize)>("H5Fincrement_filesize"); In in("H5Fincrement_filesize"); return r(a0, a1); }
ssize_t H5Fget_file_image(hid_t a0, void * a1, size_t a2) { static auto r = real<decltype(&H5Fget_file_image)>("H5Fget_file_image"); In in("H5Fget_file_image"); return r(a0, a1, a2); }
herr_t H5Fget_mdc_config(hid_t a0, H5AC_cache_config_t * a1) { static auto r = real<decltype(&H5Fget_mdc_config)>("H5Fget_mdc_config"); In in("H5Fget_mdc_config"); return r(a0, a1); }
herr_t H5Fset_mdc_config(hid_t a0, H5AC_cache_config_t * a1) { static auto r = real<decltype(&H5Fset_mdc_config)>("H5Fset_mdc_config"); In in("H5Fset_mdc_config"); return r(a0, a1); }
herr_t H5Fget_mdc_hit_rate(hid_t a0, double * a1) { static auto r = real<decltype(&H5Fget_mdc_hit_rate)>("H5Fget_mdc_hit_rate"); In in("H5Fget_mdc_hit_rate"); return r(a0, a1); }
herr_t H5Fget_mdc_size(hid_t a0, size_t * a1, size_t * a2, size_t * a3, int * a4) { static auto r = real<decltype(&H5Fget_mdc_size)>("H5Fget_mdc_size"); In in("H5Fget_mdc_size"); return r(a0, a1, a2, a3, a4); }
herr_t H5Freset_mdc_hit_rate_stats(hid_t a0) { static auto r = real<decltype(&H5Freset_mdc_hit_rate_stats)>("H5Freset_mdc_hit_rate_stats"); In in("H5Freset_mdc_hit_rate_stats"); return r(a0); }
ssize_t H5Fget_name(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Fget_name)>("H5Fget_name"); In in("H5Fget_name"); return r(a0, a1, a2); }
herr_t H5Fget_info2(hid_t a0, H5F_info2_t * a1) { static auto r = real<decltype(&H5Fget_info2)>("H5Fget_info2"); In in("H5Fget_info2"); return r(a0, a1); }
herr_t H5Fget_metadata_read_retry_info(hid_t a0, H5F_retry_info_t * a1) { static auto r = real<decltype(&H5Fget_metadata_read_retry_info)>("H5Fget_metadata_read_retry_info"); In in("H5Fget_metadata_read_retry_info"); return r(a0, a1); }
herr_t H5Fstart_swmr_write(hid_t a0) { static auto r = real<decltype(&H5Fstart_swmr_write)>("H5Fstart_swmr_write"); In in("H5Fstart_swmr_write"); return r(a0); }
ssize_t H5Fget_free_sections(hid_t a0, H5F_mem_t a1, size_t a2, H5F_sect_info_t * a3) { static auto r = real<decltype(&H5Fget_free_sections)>("H5Fget_free_sections"); In in("H5Fget_free_sections"); return r(a0, a1, a2, a3); }
herr_t H5Fclear_elink_file_cache(hid_t a0) { static auto r = real<decltype(&H5Fclear_elink_file_cache)>("H5Fclear_elink_file_cache"); In in("H5Fclear_elink_file_cache"); return r(a0); }
herr_t H5Fset_libver_bounds(hid_t a0, H5F_libver_t a1, H5F_libver_t a2) { static auto r = real<decltype(&H5Fset_libver_bounds)>("H5Fset_libver_bounds"); In in("H5Fset_libver_bounds"); return r(a0, a1, a2); }
herr_t H5Fstart_mdc_logging(hid_t a0) { static auto r = real<decltype(&H5Fstart_mdc_logging)>("H5Fstart_mdc_logging"); In in("H5Fstart_mdc_logging"); return r(a0); }
herr_t H5Fstop_mdc_logging(hid_t a0) { static auto r = real<decltype(&H5Fstop_mdc_logging)>("H5Fstop_mdc_logging"); In in("H5Fstop_mdc_logging"); return r(a0); }
herr_t H5Fget_mdc_logging_status(hid_t a0, hbool_t * a1, hbool_t * a2) { static auto r = real<decltype(&H5Fget_mdc_logging_status)>("H5Fget_mdc_logging_status"); In in("H5Fget_mdc_logging_status"); return r(a0, a1, a2); }
herr_t H5Fformat_convert(hid_t a0) { static auto r = real<decltype(&H5Fformat_convert)>("H5Fformat_convert"); In in("H5Fformat_convert"); return r(a0); }
herr_t H5Freset_page_buffering_stats(hid_t a0) { static auto r = real<decltype(&H5Freset_page_buffering_stats)>("H5Freset_page_buffering_stats"); In in("H5Freset_page_buffering_stats"); return r(a0); }
herr_t H5Fget_page_buffering_stats(hid_t a0, unsigned a1[2], unsigned a2[2], unsigned a3[2], unsigned a4[2], unsigned a5[2]) { static auto r = real<decltype(&H5Fget_page_buffering_stats)>("H5Fget_page_buffering_stats"); In in("H5Fget_page_buffering_stats"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Fget_mdc_image_info(hid_t a0, haddr_t * a1, hsize_t * a2) { static auto r = real<decltype(&H5Fget_mdc_image_info)>("H5Fget_mdc_image_info"); In in("H5Fget_mdc_image_info"); return r(a0, a1, a2); }
herr_t H5Fget_dset_no_attrs_hint(hid_t a0, hbool_t * a1) { static auto r = real<decltype(&H5Fget_dset_no_attrs_hint)>("H5Fget_dset_no_attrs_hint"); In in("H5Fget_dset_no_attrs_hint"); return r(a0, a1); }
herr_t H5Fset_dset_no_attrs_hint(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Fset_dset_no_attrs_hint)>("H5Fset_dset_no_attrs_hint"); In in("H5Fset_dset_no_attrs_hint"); return r(a0, a1); }
herr_t H5Fget_info1(hid_t a0, H5F_info1_t * a1) { static auto r = real<decltype(&H5Fget_info1)>("H5Fget_info1"); In in("H5Fget_info1"); return r(a0, a1); }
herr_t H5Fset_latest_format(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Fset_latest_format)>("H5Fset_latest_format"); In in("H5Fset_latest_format"); return r(a0, a1); }
hid_t H5FDregister(const H5FD_class_t * a0) { static auto r = real<decltype(&H5FDregister)>("H5FDregister"); In in("H5FDregister"); return r(a0); }
herr_t H5FDunregister(hid_t a0) { static auto r = real<decltype(&H5FDunregister)>("H5FDunregister"); In in("H5FDunregister"); return r(a0); }
H5FD_t * H5FDopen(const char * a0, unsigned a1, hid_t a2, haddr_t a3) { static auto r = real<decltype(&H5FDopen)>("H5FDopen"); In in("H5FDopen"); return r(a0, a1, a2, a3); }
herr_t H5FDclose(H5FD_t * a0) { static auto r = real<decltype(&H5FDclose)>("H5FDclose"); In in("H5FDclose"); return r(a0); }
int H5FDcmp(const H5FD_t * a0, const H5FD_t * a1) { static auto r = real<decltype(&H5FDcmp)>("H5FDcmp"); In in("H5FDcmp"); return r(a0, a1); }
int H5FDquery(const H5FD_t * a0, unsigned long * a1) { static auto r = real<decltype(&H5FDquery)>("H5FDquery"); In in("H5FDquery"); return r(a0, a1); }
haddr_t H5FDalloc(H5FD_t * a0, H5FD_mem_t a1, hid_t a2, hsize_t a3) { static auto r = real<decltype(&H5FDalloc)>("H5FDalloc"); In in("H5FDalloc"); return r(a0, a1, a2, a3); }
herr_t H5FDfree(H5FD_t * a0, H5FD_mem_t a1, hid_t a2, haddr_t a3, hsize_t a4) { static auto r = real<decltype(&H5FDfree)>("H5FDfree"); In in("H5FDfree"); return r(a0, a1, a2, a3, a4); }
haddr_t H5FDget_eoa(H5FD_t * a0, H5FD_mem_t a1) { static auto r = real<decltype(&H5FDget_eoa)>("H5FDget_eoa"); In in("H5FDget_eoa"); return r(a0, a1); }
herr_t H5FDset_eoa(H5FD_t * a0, H5FD_mem_t a1, haddr_t a2) { static auto r = real<decltype(&H5FDset_eoa)>("H5FDset_eoa"); In in("H5FDset_eoa"); return r(a0, a1, a2); }
haddr_t H5FDget_eof(H5FD_t * a0, H5FD_mem_t a1) { static auto r = real<decltype(&H5FDget_eof)>("H5FDget_eof"); In in("H5FDget_eof"); return r(a0, a1); }
herr_t H5FDget_vfd_handle(H5FD_t * a0, hid_t a1, void ** a2) { static auto r = real<decltype(&H5FDget_vfd_handle)>("H5FDget_vfd_handle"); In in("H5FDget_vfd_handle"); return r(a0, a1, a2); }
herr_t H5FDread(H5FD_t * a0, H5FD_mem_t a1, hid_t a2, haddr_t a3, size_t a4, void * a5) { static auto r = real<decltype(&H5FDread)>("H5FDread"); In in("H5FDread"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5FDwrite(H5FD_t * a0, H5FD_mem_t a1, hid_t a2, haddr_t a3, size_t a4, const void * a5) { static auto r = real<decltype(&H5FDwrite)>("H5FDwrite"); In in("H5FDwrite"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5FDflush(H5FD_t * a0, hid_t a1, hbool_t a2) { static auto r = real<decltype(&H5FDflush)>("H5FDflush"); In in("H5FDflush"); return r(a0, a1, a2); }
herr_t H5FDtruncate(H5FD_t * a0, hid_t a1, hbool_t a2) { static auto r = real<decltype(&H5FDtruncate)>("H5FDtruncate"); In in("H5FDtruncate"); return r(a0, a1, a2); }
herr_t H5FDlock(H5FD_t * a0, hbool_t a1) { static auto r = real<decltype(&H5FDlock)>("H5FDlock"); In in("H5FDlock"); return r(a0, a1); }
herr_t H5FDunlock(H5FD_t * a0) { static auto r = real<decltype(&H5FDunlock)>("H5FDunlock"); In in("H5FDunlock"); return r(a0); }
herr_t H5FDdriver_query(hid_t a0, unsigned long * a1) { static auto r = real<decltype(&H5FDdriver_query)>("H5FDdriver_query"); In in("H5FDdriver_query"); return r(a0, a1); }
hid_t H5Gcreate2(hid_t a0, const char * a1, hid_t a2, hid_t a3, hid_t a4) { static auto r = real<decltype(&H5Gcreate2)>("H5Gcreate2"); In in("H5Gcreate2"); if (sim::h5_fail(true)) return -1; return r(a0, a1, a2, a3, a4); }
hid_t H5Gcreate_anon(hid_t a0, hid_t a1, hid_t a2) { static auto r = real<decltype(&H5Gcreate_anon)>("H5Gcreate_anon"); In in("H5Gcreate_anon"); return r(a0, a1, a2); }
hid_t H5Gopen2(hid_t a0, const char * a1, hid_t a2) { static auto r = real<decltype(&H5Gopen2)>("H5Gopen2"); In in("H5Gopen2"); if (sim::h5_fail(false)) return -1; return r(a0, a1, a2); }
hid_t H5Gget_create_plist(hid_t a0) { static auto r = real<decltype(&H5Gget_create_plist)>("H5Gget_create_plist"); In in("H5Gget_create_plist"); return r(a0); }
herr_t H5Gget_info(hid_t a0, H5G_info_t * a1) { static auto r = real<decltype(&H5Gget_info)>("H5Gget_info"); In in("H5Gget_info"); return r(a0, a1); }
herr_t H5Gget_info_by_name(hid_t a0, const char * a1, H5G_info_t * a2, hid_t a3) { static auto r = real<decltype(&H5Gget_info_by_name)>("H5Gget_info_by_name"); In in("H5Gget_info_by_name"); return r(a0, a1, a2, a3); }
herr_t H5Gget_info_by_idx(hid_t a0, const char * a1, H5_index_t a2, H5_iter_order_t a3, hsize_t a4, H5G_info_t * a5, hid_t a6) { static auto r = real<decltype(&H5Gget_info_by_idx)>("H5Gget_info_by_idx"); In in("H5Gget_info_by_idx"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Gflush(hid_t a0) { static auto r = real<decltype(&H5Gflush)>("H5Gflush"); In in("H5Gflush"); return r(a0); }
herr_t H5Grefresh(hid_t a0) { static auto r = real<decltype(&H5Grefresh)>("H5Grefresh"); In in("H5Grefresh"); return r(a0); }
herr_t H5Gclose(hid_t a0) { static auto r = real<decltype(&H5Gclose)>("H5Gclose"); In in("H5Gclose"); return r(a0); }
hid_t H5Gcreate1(hid_t a0, const char * a1, size_t a2) { static auto r = real<decltype(&H5Gcreate1)>("H5Gcreate1"); In in("H5Gcreate1"); return r(a0, a1, a2); }
hid_t H5Gopen1(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Gopen1)>("H5Gopen1"); In in("H5Gopen1"); return r(a0, a1); }
herr_t H5Glink(hid_t a0, H5L_type_t a1, const char * a2, const char * a3) { static auto r = real<decltype(&H5Glink)>("H5Glink"); In in("H5Glink"); return r(a0, a1, a2, a3); }
herr_t H5Glink2(hid_t a0, const char * a1, H5L_type_t a2, hid_t a3, const char * a4) { static auto r = real<decltype(&H5Glink2)>("H5Glink2"); In in("H5Glink2"); return r(a0, a1, a2, a3, a4); }
herr_t H5Gmove(hid_t a0, const char * a1, const char * a2) { static auto r = real<decltype(&H5Gmove)>("H5Gmove"); In in("H5Gmove"); return r(a0, a1, a2); }
herr_t H5Gmove2(hid_t a0, const char * a1, hid_t a2, const char * a3) { static auto r = real<decltype(&H5Gmove2)>("H5Gmove2"); In in("H5Gmove2"); return r(a0, a1, a2, a3); }
herr_t H5Gunlink(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Gunlink)>("H5Gunlink"); In in("H5Gunlink"); return r(a0, a1); }
herr_t H5Gget_linkval(hid_t a0, const char * a1, size_t a2, char * a3) { static auto r = real<decltype(&H5Gget_linkval)>("H5Gget_linkval"); In in("H5Gget_linkval"); return r(a0, a1, a2, a3); }
herr_t H5Gset_comment(hid_t a0, const char * a1, const char * a2) { static auto r = real<decltype(&H5Gset_comment)>("H5Gset_comment"); In in("H5Gset_comment"); return r(a0, a1, a2); }
int H5Gget_comment(hid_t a0, const char * a1, size_t a2, char * a3) { static auto r = real<decltype(&H5Gget_comment)>("H5Gget_comment"); In in("H5Gget_comment"); return r(a0, a1, a2, a3); }
herr_t H5Giterate(hid_t a0, const char * a1, int * a2, H5G_iterate_t a3, void * a4) { static auto r = real<decltype(&H5Giterate)>("H5Giterate"); In in("H5Giterate"); return r(a0, a1, a2, a3, a4); }
herr_t H5Gget_num_objs(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Gget_num_objs)>("H5Gget_num_objs"); In in("H5Gget_num_objs"); return r(a0, a1); }
herr_t H5Gget_objinfo(hid_t a0, const char * a1, hbool_t a2, H5G_stat_t * a3) { static auto r = real<decltype(&H5Gget_objinfo)>("H5Gget_objinfo"); In in("H5Gget_objinfo"); return r(a0, a1, a2, a3); }
ssize_t H5Gget_objname_by_idx(hid_t a0, hsize_t a1, char * a2, size_t a3) { static auto r = real<decltype(&H5Gget_objname_by_idx)>("H5Gget_objname_by_idx"); In in("H5Gget_objname_by_idx"); return r(a0, a1, a2, a3); }
H5G_obj_t H5Gget_objtype_by_idx(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Gget_objtype_by_idx)>("H5Gget_objtype_by_idx"); In in("H5Gget_objtype_by_idx"); return r(a0, a1); }
herr_t H5Sclose(hid_t a0) { static auto r = real<decltype(&H5Sclose)>("H5Sclose"); In in("H5Sclose"); return r(a0); }
hid_t H5Scopy(hid_t a0) { static auto r = real<decltype(&H5Scopy)>("H5Scopy"); In in("H5Scopy"); return r(a0); }
hid_t H5Screate(H5S_class_t a0) { static auto r = real<decltype(&H5Screate)>("H5Screate"); In in("H5Screate"); return r(a0); }
hid_t H5Screate_simple(int a0, const hsize_t a1[], const hsize_t a2[]) { static auto r = real<decltype(&H5Screate_simple)>("H5Screate_simple"); In in("H5Screate_simple"); return r(a0, a1, a2); }
hid_t H5Sdecode(const void * a0) { static auto r = real<decltype(&H5Sdecode)>("H5Sdecode"); In in("H5Sdecode"); return r(a0); }
herr_t H5Sencode(hid_t a0, void * a1, size_t * a2) { static auto r = real<decltype(&H5Sencode)>("H5Sencode"); In in("H5Sencode"); return r(a0, a1, a2); }
herr_t H5Sextent_copy(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Sextent_copy)>("H5Sextent_copy"); In in("H5Sextent_copy"); return r(a0, a1); }
htri_t H5Sextent_equal(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Sextent_equal)>("H5Sextent_equal"); In in("H5Sextent_equal"); return r(a0, a1); }
int H5Sget_simple_extent_dims(hid_t a0, hsize_t a1[], hsize_t a2[]) { static auto r = real<decltype(&H5Sget_simple_extent_dims)>("H5Sget_simple_extent_dims"); In in("H5Sget_simple_extent_dims"); return r(a0, a1, a2); }
int H5Sget_simple_extent_ndims(hid_t a0) { static auto r = real<decltype(&H5Sget_simple_extent_ndims)>("H5Sget_simple_extent_ndims"); In in("H5Sget_simple_extent_ndims"); return r(a0); }
hssize_t H5Sget_simple_extent_npoints(hid_t a0) { static auto r = real<decltype(&H5Sget_simple_extent_npoints)>("H5Sget_simple_extent_npoints"); In in("H5Sget_simple_extent_npoints"); return r(a0); }
H5S_class_t H5Sget_simple_extent_type(hid_t a0) { static auto r = real<decltype(&H5Sget_simple_extent_type)>("H5Sget_simple_extent_type"); In in("H5Sget_simple_extent_type"); return r(a0); }
htri_t H5Sis_simple(hid_t a0) { static auto r = real<decltype(&H5Sis_simple)>("H5Sis_simple"); In in("H5Sis_simple"); return r(a0); }
herr_t H5Sset_extent_none(hid_t a0) { static auto r = real<decltype(&H5Sset_extent_none)>("H5Sset_extent_none"); In in("H5Sset_extent_none"); return r(a0); }
herr_t H5Sset_extent_simple(hid_t a0, int a1, const hsize_t a2[], const hsize_t a3[]) { static auto r = real<decltype(&H5Sset_extent_simple)>("H5Sset_extent_simple"); In in("H5Sset_extent_simple"); return r(a0, a1, a2, a3); }
hid_t H5Scombine_hyperslab(hid_t a0, H5S_seloper_t a1, const hsize_t a2[], const hsize_t a3[], const hsize_t a4[], const hsize_t a5[]) { static auto r = real<decltype(&H5Scombine_hyperslab)>("H5Scombine_hyperslab"); In in("H5Scombine_hyperslab"); return r(a0, a1, a2, a3, a4, a5); }
hid_t H5Scombine_select(hid_t a0, H5S_seloper_t a1, hid_t a2) { static auto r = real<decltype(&H5Scombine_select)>("H5Scombine_select"); In in("H5Scombine_select"); return r(a0, a1, a2); }
htri_t H5Sget_regular_hyperslab(hid_t a0, hsize_t a1[], hsize_t a2[], hsize_t a3[], hsize_t a4[]) { static auto r = real<decltype(&H5Sget_regular_hyperslab)>("H5Sget_regular_hyperslab"); In in("H5Sget_regular_hyperslab"); return r(a0, a1, a2, a3, a4); }
herr_t H5Sget_select_bounds(hid_t a0, hsize_t a1[], hsize_t a2[]) { static auto r = real<decltype(&H5Sget_select_bounds)>("H5Sget_select_bounds"); In in("H5Sget_select_bounds"); return r(a0, a1, a2); }
hssize_t H5Sget_select_elem_npoints(hid_t a0) { static auto r = real<decltype(&H5Sget_select_elem_npoints)>("H5Sget_select_elem_npoints"); In in("H5Sget_select_elem_npoints"); return r(a0); }
herr_t H5Sget_select_elem_pointlist(hid_t a0, hsize_t a1, hsize_t a2, hsize_t a3[ ]) { static auto r = real<decltype(&H5Sget_select_elem_pointlist)>("H5Sget_select_elem_pointlist"); In in("H5Sget_select_elem_pointlist"); return r(a0, a1, a2, a3); }
herr_t H5Sget_select_hyper_blocklist(hid_t a0, hsize_t a1, hsize_t a2, hsize_t a3[ ]) { static auto r = real<decltype(&H5Sget_select_hyper_blocklist)>("H5Sget_select_hyper_blocklist"); In in("H5Sget_select_hyper_blocklist"); return r(a0, a1, a2, a3); }
hssize_t H5Sget_select_hyper_nblocks(hid_t a0) { static auto r = real<decltype(&H5Sget_select_hyper_nblocks)>("H5Sget_select_hyper_nblocks"); In in("H5Sget_select_hyper_nblocks"); return r(a0); }
hssize_t H5Sget_select_npoints(hid_t a0) { static auto r = real<decltype(&H5Sget_select_npoints)>("H5Sget_select_npoints"); In in("H5Sget_select_npoints"); return r(a0); }
H5S_sel_type H5Sget_select_type(hid_t a0) { static auto r = real<decltype(&H5Sget_select_type)>("H5Sget_select_type"); In in("H5Sget_select_type"); return r(a0); }
htri_t H5Sis_regular_hyperslab(hid_t a0) { static auto r = real<decltype(&H5Sis_regular_hyperslab)>("H5Sis_regular_hyperslab"); In in("H5Sis_regular_hyperslab"); return r(a0); }
herr_t H5Smodify_select(hid_t a0, H5S_seloper_t a1, hid_t a2) { static auto r = real<decltype(&H5Smodify_select)>("H5Smodify_select"); In in("H5Smodify_select"); return r(a0, a1, a2); }
herr_t H5Soffset_simple(hid_t a0, const hssize_t * a1) { static auto r = real<decltype(&H5Soffset_simple)>("H5Soffset_simple"); In in("H5Soffset_simple"); return r(a0, a1); }
herr_t H5Sselect_adjust(hid_t a0, const hssize_t * a1) { static auto r = real<decltype(&H5Sselect_adjust)>("H5Sselect_adjust"); In in("H5Sselect_adjust"); return r(a0, a1); }
herr_t H5Sselect_all(hid_t a0) { static auto r = real<decltype(&H5Sselect_all)>("H5Sselect_all"); In in("H5Sselect_all"); return r(a0); }
herr_t H5Sselect_copy(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Sselect_copy)>("H5Sselect_copy"); In in("H5Sselect_copy"); return r(a0, a1); }
herr_t H5Sselect_elements(hid_t a0, H5S_seloper_t a1, size_t a2, const hsize_t * a3) { static auto r = real<decltype(&H5Sselect_elements)>("H5Sselect_elements"); In in("H5Sselect_elements"); return r(a0, a1, a2, a3); }
herr_t H5Sselect_hyperslab(hid_t a0, H5S_seloper_t a1, const hsize_t a2[], const hsize_t a3[], const hsize_t a4[], const hsize_t a5[]) { static auto r = real<decltype(&H5Sselect_hyperslab)>("H5Sselect_hyperslab"); In in("H5Sselect_hyperslab"); return r(a0, a1, a2, a3, a4, a5); }
htri_t H5Sselect_intersect_block(hid_t a0, const hsize_t * a1, const hsize_t * a2) { static auto r = real<decltype(&H5Sselect_intersect_block)>("H5Sselect_intersect_block"); In in("H5Sselect_intersect_block"); return r(a0, a1, a2); }
herr_t H5Sselect_none(hid_t a0) { static auto r = real<decltype(&H5Sselect_none)>("H5Sselect_none"); In in("H5Sselect_none"); return r(a0); }
hid_t H5Sselect_project_intersection(hid_t a0, hid_t a1, hid_t a2) { static auto r = real<decltype(&H5Sselect_project_intersection)>("H5Sselect_project_intersection"); In in("H5Sselect_project_intersection"); return r(a0, a1, a2); }
htri_t H5Sselect_shape_same(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Sselect_shape_same)>("H5Sselect_shape_same"); In in("H5Sselect_shape_same"); return r(a0, a1); }
htri_t H5Sselect_valid(hid_t a0) { static auto r = real<decltype(&H5Sselect_valid)>("H5Sselect_valid"); In in("H5Sselect_valid"); return r(a0); }
herr_t H5Zregister(const void * a0) { static auto r = real<decltype(&H5Zregister)>("H5Zregister"); In in("H5Zregister"); return r(a0); }
herr_t H5Zunregister(H5Z_filter_t a0) { static auto r = real<decltype(&H5Zunregister)>("H5Zunregister"); In in("H5Zunregister"); return r(a0); }
htri_t H5Zfilter_avail(H5Z_filter_t a0) { static auto r = real<decltype(&H5Zfilter_avail)>("H5Zfilter_avail"); In in("H5Zfilter_avail"); return r(a0); }
herr_t H5Zget_filter_info(H5Z_filter_t a0, unsigned int * a1) { static auto r = real<decltype(&H5Zget_filter_info)>("H5Zget_filter_info"); In in("H5Zget_filter_info"); return r(a0, a1); }
herr_t H5Pclose(hid_t a0) { static auto r = real<decltype(&H5Pclose)>("H5Pclose"); In in("H5Pclose"); return r(a0); }
herr_t H5Pclose_class(hid_t a0) { static auto r = real<decltype(&H5Pclose_class)>("H5Pclose_class"); In in("H5Pclose_class"); return r(a0); }
hid_t H5Pcopy(hid_t a0) { static auto r = real<decltype(&H5Pcopy)>("H5Pcopy"); In in("H5Pcopy"); return r(a0); }
herr_t H5Pcopy_prop(hid_t a0, hid_t a1, const char * a2) { static auto r = real<decltype(&H5Pcopy_prop)>("H5Pcopy_prop"); In in("H5Pcopy_prop"); return r(a0, a1, a2); }
hid_t H5Pcreate(hid_t a0) { static auto r = real<decltype(&H5Pcreate)>("H5Pcreate"); In in("H5Pcreate"); return r(a0); }
hid_t H5Pcreate_class(hid_t a0, const char * a1, H5P_cls_create_func_t a2, void * a3, H5P_cls_copy_func_t a4, void * a5, H5P_cls_close_func_t a6, void * a7) { static auto r = real<decltype(&H5Pcreate_class)>("H5Pcreate_class"); In in("H5Pcreate_class"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
hid_t H5Pdecode(const void * a0) { static auto r = real<decltype(&H5Pdecode)>("H5Pdecode"); In in("H5Pdecode"); return r(a0); }
herr_t H5Pencode(hid_t a0, void * a1, size_t * a2) { static auto r = real<decltype(&H5Pencode)>("H5Pencode"); In in("H5Pencode"); return r(a0, a1, a2); }
htri_t H5Pequal(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Pequal)>("H5Pequal"); In in("H5Pequal"); return r(a0, a1); }
htri_t H5Pexist(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Pexist)>("H5Pexist"); In in("H5Pexist"); return r(a0, a1); }
herr_t H5Pget(hid_t a0, const char * a1, void * a2) { static auto r = real<decltype(&H5Pget)>("H5Pget"); In in("H5Pget"); return r(a0, a1, a2); }
hid_t H5Pget_class(hid_t a0) { static auto r = real<decltype(&H5Pget_class)>("H5Pget_class"); In in("H5Pget_class"); return r(a0); }
char * H5Pget_class_name(hid_t a0) { static auto r = real<decltype(&H5Pget_class_name)>("H5Pget_class_name"); In in("H5Pget_class_name"); return r(a0); }
hid_t H5Pget_class_parent(hid_t a0) { static auto r = real<decltype(&H5Pget_class_parent)>("H5Pget_class_parent"); In in("H5Pget_class_parent"); return r(a0); }
herr_t H5Pget_nprops(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_nprops)>("H5Pget_nprops"); In in("H5Pget_nprops"); return r(a0, a1); }
herr_t H5Pget_size(hid_t a0, const char * a1, size_t * a2) { static auto r = real<decltype(&H5Pget_size)>("H5Pget_size"); In in("H5Pget_size"); return r(a0, a1, a2); }
herr_t H5Pinsert2(hid_t a0, const char * a1, size_t a2, void * a3, H5P_prp_set_func_t a4, H5P_prp_get_func_t a5, H5P_prp_delete_func_t a6, H5P_prp_copy_func_t a7, H5P_prp_compare_func_t a8, H5P_prp_close_func_t a9) { static auto r = real<decltype(&H5Pinsert2)>("H5Pinsert2"); In in("H5Pinsert2"); return r(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
htri_t H5Pisa_class(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Pisa_class)>("H5Pisa_class"); In in("H5Pisa_class"); return r(a0, a1); }
int H5Piterate(hid_t a0, int * a1, H5P_iterate_t a2, void * a3) { static auto r = real<decltype(&H5Piterate)>("H5Piterate"); In in("H5Piterate"); return r(a0, a1, a2, a3); }
herr_t H5Pregister2(hid_t a0, const char * a1, size_t a2, void * a3, H5P_prp_create_func_t a4, H5P_prp_set_func_t a5, H5P_prp_get_func_t a6, H5P_prp_delete_func_t a7, H5P_prp_copy_func_t a8, H5P_prp_compare_func_t a9, H5P_prp_close_func_t a10) { static auto r = real<decltype(&H5Pregister2)>("H5Pregister2"); In in("H5Pregister2"); return r(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
herr_t H5Premove(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Premove)>("H5Premove"); In in("H5Premove"); return r(a0, a1); }
herr_t H5Pset(hid_t a0, const char * a1, const void * a2) { static auto r = real<decltype(&H5Pset)>("H5Pset"); In in("H5Pset"); return r(a0, a1, a2); }
herr_t H5Punregister(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Punregister)>("H5Punregister"); In in("H5Punregister"); return r(a0, a1); }
htri_t H5Pall_filters_avail(hid_t a0) { static auto r = real<decltype(&H5Pall_filters_avail)>("H5Pall_filters_avail"); In in("H5Pall_filters_avail"); return r(a0); }
herr_t H5Pget_attr_creation_order(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_attr_creation_order)>("H5Pget_attr_creation_order"); In in("H5Pget_attr_creation_order"); return r(a0, a1); }
herr_t H5Pget_attr_phase_change(hid_t a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5Pget_attr_phase_change)>("H5Pget_attr_phase_change"); In in("H5Pget_attr_phase_change"); return r(a0, a1, a2); }
H5Z_filter_t H5Pget_filter2(hid_t a0, unsigned a1, unsigned int * a2, size_t * a3, unsigned a4[], size_t a5, char a6[], unsigned * a7) { static auto r = real<decltype(&H5Pget_filter2)>("H5Pget_filter2"); In in("H5Pget_filter2"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
herr_t H5Pget_filter_by_id2(hid_t a0, H5Z_filter_t a1, unsigned int * a2, size_t * a3, unsigned a4[], size_t a5, char a6[], unsigned * a7) { static auto r = real<decltype(&H5Pget_filter_by_id2)>("H5Pget_filter_by_id2"); In in("H5Pget_filter_by_id2"); return r(a0, a1, a2, a3, a4, a5, a6, a7); }
int H5Pget_nfilters(hid_t a0) { static auto r = real<decltype(&H5Pget_nfilters)>("H5Pget_nfilters"); In in("H5Pget_nfilters"); return r(a0); }
herr_t H5Pget_obj_track_times(hid_t a0, hbool_t * a1) { static auto r = real<decltype(&H5Pget_obj_track_times)>("H5Pget_obj_track_times"); In in("H5Pget_obj_track_times"); return r(a0, a1); }
herr_t H5Pmodify_filter(hid_t a0, H5Z_filter_t a1, unsigned int a2, size_t a3, const unsigned int a4[ ]) { static auto r = real<decltype(&H5Pmodify_filter)>("H5Pmodify_filter"); In in("H5Pmodify_filter"); return r(a0, a1, a2, a3, a4); }
herr_t H5Premove_filter(hid_t a0, H5Z_filter_t a1) { static auto r = real<decltype(&H5Premove_filter)>("H5Premove_filter"); In in("H5Premove_filter"); return r(a0, a1); }
herr_t H5Pset_attr_creation_order(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_attr_creation_order)>("H5Pset_attr_creation_order"); In in("H5Pset_attr_creation_order"); return r(a0, a1); }
herr_t H5Pset_attr_phase_change(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_attr_phase_change)>("H5Pset_attr_phase_change"); In in("H5Pset_attr_phase_change"); return r(a0, a1, a2); }
herr_t H5Pset_deflate(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_deflate)>("H5Pset_deflate"); In in("H5Pset_deflate"); return r(a0, a1); }
herr_t H5Pset_filter(hid_t a0, H5Z_filter_t a1, unsigned int a2, size_t a3, const unsigned int a4[]) { static auto r = real<decltype(&H5Pset_filter)>("H5Pset_filter"); In in("H5Pset_filter"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pset_fletcher32(hid_t a0) { static auto r = real<decltype(&H5Pset_fletcher32)>("H5Pset_fletcher32"); In in("H5Pset_fletcher32"); return r(a0); }
herr_t H5Pset_obj_track_times(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Pset_obj_track_times)>("H5Pset_obj_track_times"); In in("H5Pset_obj_track_times"); return r(a0, a1); }
herr_t H5Pget_file_space_page_size(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_file_space_page_size)>("H5Pget_file_space_page_size"); In in("H5Pget_file_space_page_size"); return r(a0, a1); }
herr_t H5Pget_file_space_strategy(hid_t a0, H5F_fspace_strategy_t * a1, hbool_t * a2, hsize_t * a3) { static auto r = real<decltype(&H5Pget_file_space_strategy)>("H5Pget_file_space_strategy"); In in("H5Pget_file_space_strategy"); return r(a0, a1, a2, a3); }
herr_t H5Pget_istore_k(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_istore_k)>("H5Pget_istore_k"); In in("H5Pget_istore_k"); return r(a0, a1); }
herr_t H5Pget_shared_mesg_index(hid_t a0, unsigned a1, unsigned * a2, unsigned * a3) { static auto r = real<decltype(&H5Pget_shared_mesg_index)>("H5Pget_shared_mesg_index"); In in("H5Pget_shared_mesg_index"); return r(a0, a1, a2, a3); }
herr_t H5Pget_shared_mesg_nindexes(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_shared_mesg_nindexes)>("H5Pget_shared_mesg_nindexes"); In in("H5Pget_shared_mesg_nindexes"); return r(a0, a1); }
herr_t H5Pget_shared_mesg_phase_change(hid_t a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5Pget_shared_mesg_phase_change)>("H5Pget_shared_mesg_phase_change"); In in("H5Pget_shared_mesg_phase_change"); return r(a0, a1, a2); }
herr_t H5Pget_sizes(hid_t a0, size_t * a1, size_t * a2) { static auto r = real<decltype(&H5Pget_sizes)>("H5Pget_sizes"); In in("H5Pget_sizes"); return r(a0, a1, a2); }
herr_t H5Pget_sym_k(hid_t a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5Pget_sym_k)>("H5Pget_sym_k"); In in("H5Pget_sym_k"); return r(a0, a1, a2); }
herr_t H5Pget_userblock(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_userblock)>("H5Pget_userblock"); In in("H5Pget_userblock"); return r(a0, a1); }
herr_t H5Pset_file_space_page_size(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_file_space_page_size)>("H5Pset_file_space_page_size"); In in("H5Pset_file_space_page_size"); return r(a0, a1); }
herr_t H5Pset_file_space_strategy(hid_t a0, H5F_fspace_strategy_t a1, hbool_t a2, hsize_t a3) { static auto r = real<decltype(&H5Pset_file_space_strategy)>("H5Pset_file_space_strategy"); In in("H5Pset_file_space_strategy"); return r(a0, a1, a2, a3); }
herr_t H5Pset_istore_k(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_istore_k)>("H5Pset_istore_k"); In in("H5Pset_istore_k"); return r(a0, a1); }
herr_t H5Pset_shared_mesg_index(hid_t a0, unsigned a1, unsigned a2, unsigned a3) { static auto r = real<decltype(&H5Pset_shared_mesg_index)>("H5Pset_shared_mesg_index"); In in("H5Pset_shared_mesg_index"); return r(a0, a1, a2, a3); }
herr_t H5Pset_shared_mesg_nindexes(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_shared_mesg_nindexes)>("H5Pset_shared_mesg_nindexes"); In in("H5Pset_shared_mesg_nindexes"); return r(a0, a1); }
herr_t H5Pset_shared_mesg_phase_change(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_shared_mesg_phase_change)>("H5Pset_shared_mesg_phase_change"); In in("H5Pset_shared_mesg_phase_change"); return r(a0, a1, a2); }
herr_t H5Pset_sizes(hid_t a0, size_t a1, size_t a2) { static auto r = real<decltype(&H5Pset_sizes)>("H5Pset_sizes"); In in("H5Pset_sizes"); return r(a0, a1, a2); }
herr_t H5Pset_sym_k(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_sym_k)>("H5Pset_sym_k"); In in("H5Pset_sym_k"); return r(a0, a1, a2); }
herr_t H5Pset_userblock(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_userblock)>("H5Pset_userblock"); In in("H5Pset_userblock"); return r(a0, a1); }
herr_t H5Pget_alignment(hid_t a0, hsize_t * a1, hsize_t * a2) { static auto r = real<decltype(&H5Pget_alignment)>("H5Pget_alignment"); In in("H5Pget_alignment"); return r(a0, a1, a2); }
herr_t H5Pget_cache(hid_t a0, int * a1, size_t * a2, size_t * a3, double * a4) { static auto r = real<decltype(&H5Pget_cache)>("H5Pget_cache"); In in("H5Pget_cache"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pget_core_write_tracking(hid_t a0, hbool_t * a1, size_t * a2) { static auto r = real<decltype(&H5Pget_core_write_tracking)>("H5Pget_core_write_tracking"); In in("H5Pget_core_write_tracking"); return r(a0, a1, a2); }
hid_t H5Pget_driver(hid_t a0) { static auto r = real<decltype(&H5Pget_driver)>("H5Pget_driver"); In in("H5Pget_driver"); return r(a0); }
const void * H5Pget_driver_info(hid_t a0) { static auto r = real<decltype(&H5Pget_driver_info)>("H5Pget_driver_info"); In in("H5Pget_driver_info"); return r(a0); }
herr_t H5Pget_elink_file_cache_size(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_elink_file_cache_size)>("H5Pget_elink_file_cache_size"); In in("H5Pget_elink_file_cache_size"); return r(a0, a1); }
herr_t H5Pget_evict_on_close(hid_t a0, hbool_t * a1) { static auto r = real<decltype(&H5Pget_evict_on_close)>("H5Pget_evict_on_close"); In in("H5Pget_evict_on_close"); return r(a0, a1); }
herr_t H5Pget_family_offset(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_family_offset)>("H5Pget_family_offset"); In in("H5Pget_family_offset"); return r(a0, a1); }
herr_t H5Pget_fclose_degree(hid_t a0, H5F_close_degree_t * a1) { static auto r = real<decltype(&H5Pget_fclose_degree)>("H5Pget_fclose_degree"); In in("H5Pget_fclose_degree"); return r(a0, a1); }
herr_t H5Pget_file_image(hid_t a0, void ** a1, size_t * a2) { static auto r = real<decltype(&H5Pget_file_image)>("H5Pget_file_image"); In in("H5Pget_file_image"); return r(a0, a1, a2); }
herr_t H5Pget_file_image_callbacks(hid_t a0, H5FD_file_image_callbacks_t * a1) { static auto r = real<decltype(&H5Pget_file_image_callbacks)>("H5Pget_file_image_callbacks"); In in("H5Pget_file_image_callbacks"); return r(a0, a1); }
herr_t H5Pget_file_locking(hid_t a0, hbool_t * a1, hbool_t * a2) { static auto r = real<decltype(&H5Pget_file_locking)>("H5Pget_file_locking"); In in("H5Pget_file_locking"); return r(a0, a1, a2); }
herr_t H5Pget_gc_references(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_gc_references)>("H5Pget_gc_references"); In in("H5Pget_gc_references"); return r(a0, a1); }
herr_t H5Pget_libver_bounds(hid_t a0, H5F_libver_t * a1, H5F_libver_t * a2) { static auto r = real<decltype(&H5Pget_libver_bounds)>("H5Pget_libver_bounds"); In in("H5Pget_libver_bounds"); return r(a0, a1, a2); }
herr_t H5Pget_mdc_config(hid_t a0, H5AC_cache_config_t * a1) { static auto r = real<decltype(&H5Pget_mdc_config)>("H5Pget_mdc_config"); In in("H5Pget_mdc_config"); return r(a0, a1); }
herr_t H5Pget_mdc_image_config(hid_t a0, H5AC_cache_image_config_t * a1) { static auto r = real<decltype(&H5Pget_mdc_image_config)>("H5Pget_mdc_image_config"); In in("H5Pget_mdc_image_config"); return r(a0, a1); }
herr_t H5Pget_mdc_log_options(hid_t a0, hbool_t * a1, char * a2, size_t * a3, hbool_t * a4) { static auto r = real<decltype(&H5Pget_mdc_log_options)>("H5Pget_mdc_log_options"); In in("H5Pget_mdc_log_options"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pget_meta_block_size(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_meta_block_size)>("H5Pget_meta_block_size"); In in("H5Pget_meta_block_size"); return r(a0, a1); }
herr_t H5Pget_metadata_read_attempts(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_metadata_read_attempts)>("H5Pget_metadata_read_attempts"); In in("H5Pget_metadata_read_attempts"); return r(a0, a1); }
herr_t H5Pget_multi_type(hid_t a0, H5FD_mem_t * a1) { static auto r = real<decltype(&H5Pget_multi_type)>("H5Pget_multi_type"); In in("H5Pget_multi_type"); return r(a0, a1); }
herr_t H5Pget_object_flush_cb(hid_t a0, H5F_flush_cb_t * a1, void ** a2) { static auto r = real<decltype(&H5Pget_object_flush_cb)>("H5Pget_object_flush_cb"); In in("H5Pget_object_flush_cb"); return r(a0, a1, a2); }
herr_t H5Pget_page_buffer_size(hid_t a0, size_t * a1, unsigned * a2, unsigned * a3) { static auto r = real<decltype(&H5Pget_page_buffer_size)>("H5Pget_page_buffer_size"); In in("H5Pget_page_buffer_size"); return r(a0, a1, a2, a3); }
herr_t H5Pget_sieve_buf_size(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_sieve_buf_size)>("H5Pget_sieve_buf_size"); In in("H5Pget_sieve_buf_size"); return r(a0, a1); }
herr_t H5Pget_small_data_block_size(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_small_data_block_size)>("H5Pget_small_data_block_size"); In in("H5Pget_small_data_block_size"); return r(a0, a1); }
herr_t H5Pset_alignment(hid_t a0, hsize_t a1, hsize_t a2) { static auto r = real<decltype(&H5Pset_alignment)>("H5Pset_alignment"); In in("H5Pset_alignment"); return r(a0, a1, a2); }
herr_t H5Pset_cache(hid_t a0, int a1, size_t a2, size_t a3, double a4) { static auto r = real<decltype(&H5Pset_cache)>("H5Pset_cache"); In in("H5Pset_cache"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pset_core_write_tracking(hid_t a0, hbool_t a1, size_t a2) { static auto r = real<decltype(&H5Pset_core_write_tracking)>("H5Pset_core_write_tracking"); In in("H5Pset_core_write_tracking"); return r(a0, a1, a2); }
herr_t H5Pset_driver(hid_t a0, hid_t a1, const void * a2) { static auto r = real<decltype(&H5Pset_driver)>("H5Pset_driver"); In in("H5Pset_driver"); return r(a0, a1, a2); }
herr_t H5Pset_elink_file_cache_size(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_elink_file_cache_size)>("H5Pset_elink_file_cache_size"); In in("H5Pset_elink_file_cache_size"); return r(a0, a1); }
herr_t H5Pset_evict_on_close(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Pset_evict_on_close)>("H5Pset_evict_on_close"); In in("H5Pset_evict_on_close"); return r(a0, a1); }
herr_t H5Pset_family_offset(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_family_offset)>("H5Pset_family_offset"); In in("H5Pset_family_offset"); return r(a0, a1); }
herr_t H5Pset_fclose_degree(hid_t a0, H5F_close_degree_t a1) { static auto r = real<decltype(&H5Pset_fclose_degree)>("H5Pset_fclose_degree"); In in("H5Pset_fclose_degree"); return r(a0, a1); }
herr_t H5Pset_file_image(hid_t a0, void * a1, size_t a2) { static auto r = real<decltype(&H5Pset_file_image)>("H5Pset_file_image"); In in("H5Pset_file_image"); return r(a0, a1, a2); }
herr_t H5Pset_file_image_callbacks(hid_t a0, H5FD_file_image_callbacks_t * a1) { static auto r = real<decltype(&H5Pset_file_image_callbacks)>("H5Pset_file_image_callbacks"); In in("H5Pset_file_image_callbacks"); return r(a0, a1); }
herr_t H5Pset_file_locking(hid_t a0, hbool_t a1, hbool_t a2) { static auto r = real<decltype(&H5Pset_file_locking)>("H5Pset_file_locking"); In in("H5Pset_file_locking"); return r(a0, a1, a2); }
herr_t H5Pset_gc_references(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_gc_references)>("H5Pset_gc_references"); In in("H5Pset_gc_references"); return r(a0, a1); }
herr_t H5Pset_libver_bounds(hid_t a0, H5F_libver_t a1, H5F_libver_t a2) { static auto r = real<decltype(&H5Pset_libver_bounds)>("H5Pset_libver_bounds"); In in("H5Pset_libver_bounds"); return r(a0, a1, a2); }
herr_t H5Pset_mdc_config(hid_t a0, H5AC_cache_config_t * a1) { static auto r = real<decltype(&H5Pset_mdc_config)>("H5Pset_mdc_config"); In in("H5Pset_mdc_config"); return r(a0, a1); }
herr_t H5Pset_mdc_log_options(hid_t a0, hbool_t a1, const char * a2, hbool_t a3) { static auto r = real<decltype(&H5Pset_mdc_log_options)>("H5Pset_mdc_log_options"); In in("H5Pset_mdc_log_options"); return r(a0, a1, a2, a3); }
herr_t H5Pset_meta_block_size(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_meta_block_size)>("H5Pset_meta_block_size"); In in("H5Pset_meta_block_size"); return r(a0, a1); }
herr_t H5Pset_metadata_read_attempts(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_metadata_read_attempts)>("H5Pset_metadata_read_attempts"); In in("H5Pset_metadata_read_attempts"); return r(a0, a1); }
herr_t H5Pset_multi_type(hid_t a0, H5FD_mem_t a1) { static auto r = real<decltype(&H5Pset_multi_type)>("H5Pset_multi_type"); In in("H5Pset_multi_type"); return r(a0, a1); }
herr_t H5Pset_object_flush_cb(hid_t a0, H5F_flush_cb_t a1, void * a2) { static auto r = real<decltype(&H5Pset_object_flush_cb)>("H5Pset_object_flush_cb"); In in("H5Pset_object_flush_cb"); return r(a0, a1, a2); }
herr_t H5Pset_sieve_buf_size(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pset_sieve_buf_size)>("H5Pset_sieve_buf_size"); In in("H5Pset_sieve_buf_size"); return r(a0, a1); }
herr_t H5Pset_small_data_block_size(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_small_data_block_size)>("H5Pset_small_data_block_size"); In in("H5Pset_small_data_block_size"); return r(a0, a1); }
herr_t H5Pset_mdc_image_config(hid_t a0, H5AC_cache_image_config_t * a1) { static auto r = real<decltype(&H5Pset_mdc_image_config)>("H5Pset_mdc_image_config"); In in("H5Pset_mdc_image_config"); return r(a0, a1); }
herr_t H5Pset_page_buffer_size(hid_t a0, size_t a1, unsigned a2, unsigned a3) { static auto r = real<decltype(&H5Pset_page_buffer_size)>("H5Pset_page_buffer_size"); In in("H5Pset_page_buffer_size"); return r(a0, a1, a2, a3); }
herr_t H5Pfill_value_defined(hid_t a0, H5D_fill_value_t * a1) { static auto r = real<decltype(&H5Pfill_value_defined)>("H5Pfill_value_defined"); In in("H5Pfill_value_defined"); return r(a0, a1); }
herr_t H5Pget_alloc_time(hid_t a0, H5D_alloc_time_t * a1) { static auto r = real<decltype(&H5Pget_alloc_time)>("H5Pget_alloc_time"); In in("H5Pget_alloc_time"); return r(a0, a1); }
int H5Pget_chunk(hid_t a0, int a1, hsize_t a2[]) { static auto r = real<decltype(&H5Pget_chunk)>("H5Pget_chunk"); In in("H5Pget_chunk"); return r(a0, a1, a2); }
herr_t H5Pget_chunk_opts(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_chunk_opts)>("H5Pget_chunk_opts"); In in("H5Pget_chunk_opts"); return r(a0, a1); }
herr_t H5Pget_dset_no_attrs_hint(hid_t a0, hbool_t * a1) { static auto r = real<decltype(&H5Pget_dset_no_attrs_hint)>("H5Pget_dset_no_attrs_hint"); In in("H5Pget_dset_no_attrs_hint"); return r(a0, a1); }
herr_t H5Pget_external(hid_t a0, unsigned a1, size_t a2, char * a3, off_t * a4, hsize_t * a5) { static auto r = real<decltype(&H5Pget_external)>("H5Pget_external"); In in("H5Pget_external"); return r(a0, a1, a2, a3, a4, a5); }
int H5Pget_external_count(hid_t a0) { static auto r = real<decltype(&H5Pget_external_count)>("H5Pget_external_count"); In in("H5Pget_external_count"); return r(a0); }
herr_t H5Pget_fill_time(hid_t a0, H5D_fill_time_t * a1) { static auto r = real<decltype(&H5Pget_fill_time)>("H5Pget_fill_time"); In in("H5Pget_fill_time"); return r(a0, a1); }
herr_t H5Pget_fill_value(hid_t a0, hid_t a1, void * a2) { static auto r = real<decltype(&H5Pget_fill_value)>("H5Pget_fill_value"); In in("H5Pget_fill_value"); return r(a0, a1, a2); }
H5D_layout_t H5Pget_layout(hid_t a0) { static auto r = real<decltype(&H5Pget_layout)>("H5Pget_layout"); In in("H5Pget_layout"); return r(a0); }
herr_t H5Pget_virtual_count(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_virtual_count)>("H5Pget_virtual_count"); In in("H5Pget_virtual_count"); return r(a0, a1); }
ssize_t H5Pget_virtual_dsetname(hid_t a0, size_t a1, char * a2, size_t a3) { static auto r = real<decltype(&H5Pget_virtual_dsetname)>("H5Pget_virtual_dsetname"); In in("H5Pget_virtual_dsetname"); return r(a0, a1, a2, a3); }
ssize_t H5Pget_virtual_filename(hid_t a0, size_t a1, char * a2, size_t a3) { static auto r = real<decltype(&H5Pget_virtual_filename)>("H5Pget_virtual_filename"); In in("H5Pget_virtual_filename"); return r(a0, a1, a2, a3); }
hid_t H5Pget_virtual_srcspace(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pget_virtual_srcspace)>("H5Pget_virtual_srcspace"); In in("H5Pget_virtual_srcspace"); return r(a0, a1); }
hid_t H5Pget_virtual_vspace(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pget_virtual_vspace)>("H5Pget_virtual_vspace"); In in("H5Pget_virtual_vspace"); return r(a0, a1); }
herr_t H5Pset_alloc_time(hid_t a0, H5D_alloc_time_t a1) { static auto r = real<decltype(&H5Pset_alloc_time)>("H5Pset_alloc_time"); In in("H5Pset_alloc_time"); return r(a0, a1); }
herr_t H5Pset_chunk(hid_t a0, int a1, const hsize_t a2[ ]) { static auto r = real<decltype(&H5Pset_chunk)>("H5Pset_chunk"); In in("H5Pset_chunk"); return r(a0, a1, a2); }
herr_t H5Pset_chunk_opts(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_chunk_opts)>("H5Pset_chunk_opts"); In in("H5Pset_chunk_opts"); return r(a0, a1); }
herr_t H5Pset_dset_no_attrs_hint(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Pset_dset_no_attrs_hint)>("H5Pset_dset_no_attrs_hint"); In in("H5Pset_dset_no_attrs_hint"); return r(a0, a1); }
herr_t H5Pset_external(hid_t a0, const char * a1, off_t a2, hsize_t a3) { static auto r = real<decltype(&H5Pset_external)>("H5Pset_external"); In in("H5Pset_external"); return r(a0, a1, a2, a3); }
herr_t H5Pset_fill_time(hid_t a0, H5D_fill_time_t a1) { static auto r = real<decltype(&H5Pset_fill_time)>("H5Pset_fill_time"); In in("H5Pset_fill_time"); return r(a0, a1); }
herr_t H5Pset_fill_value(hid_t a0, hid_t a1, const void * a2) { static auto r = real<decltype(&H5Pset_fill_value)>("H5Pset_fill_value"); In in("H5Pset_fill_value"); return r(a0, a1, a2); }
herr_t H5Pset_shuffle(hid_t a0) { static auto r = real<decltype(&H5Pset_shuffle)>("H5Pset_shuffle"); In in("H5Pset_shuffle"); return r(a0); }
herr_t H5Pset_layout(hid_t a0, H5D_layout_t a1) { static auto r = real<decltype(&H5Pset_layout)>("H5Pset_layout"); In in("H5Pset_layout"); return r(a0, a1); }
herr_t H5Pset_nbit(hid_t a0) { static auto r = real<decltype(&H5Pset_nbit)>("H5Pset_nbit"); In in("H5Pset_nbit"); return r(a0); }
herr_t H5Pset_scaleoffset(hid_t a0, H5Z_SO_scale_type_t a1, int a2) { static auto r = real<decltype(&H5Pset_scaleoffset)>("H5Pset_scaleoffset"); In in("H5Pset_scaleoffset"); return r(a0, a1, a2); }
herr_t H5Pset_szip(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_szip)>("H5Pset_szip"); In in("H5Pset_szip"); return r(a0, a1, a2); }
herr_t H5Pset_virtual(hid_t a0, hid_t a1, const char * a2, const char * a3, hid_t a4) { static auto r = real<decltype(&H5Pset_virtual)>("H5Pset_virtual"); In in("H5Pset_virtual"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pget_append_flush(hid_t a0, unsigned a1, hsize_t a2[], H5D_append_cb_t * a3, void ** a4) { static auto r = real<decltype(&H5Pget_append_flush)>("H5Pget_append_flush"); In in("H5Pget_append_flush"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pget_chunk_cache(hid_t a0, size_t * a1, size_t * a2, double * a3) { static auto r = real<decltype(&H5Pget_chunk_cache)>("H5Pget_chunk_cache"); In in("H5Pget_chunk_cache"); return r(a0, a1, a2, a3); }
ssize_t H5Pget_efile_prefix(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Pget_efile_prefix)>("H5Pget_efile_prefix"); In in("H5Pget_efile_prefix"); return r(a0, a1, a2); }
ssize_t H5Pget_virtual_prefix(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Pget_virtual_prefix)>("H5Pget_virtual_prefix"); In in("H5Pget_virtual_prefix"); return r(a0, a1, a2); }
herr_t H5Pget_virtual_printf_gap(hid_t a0, hsize_t * a1) { static auto r = real<decltype(&H5Pget_virtual_printf_gap)>("H5Pget_virtual_printf_gap"); In in("H5Pget_virtual_printf_gap"); return r(a0, a1); }
herr_t H5Pget_virtual_view(hid_t a0, H5D_vds_view_t * a1) { static auto r = real<decltype(&H5Pget_virtual_view)>("H5Pget_virtual_view"); In in("H5Pget_virtual_view"); return r(a0, a1); }
herr_t H5Pset_append_flush(hid_t a0, unsigned a1, const hsize_t a2[], H5D_append_cb_t a3, void * a4) { static auto r = real<decltype(&H5Pset_append_flush)>("H5Pset_append_flush"); In in("H5Pset_append_flush"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pset_chunk_cache(hid_t a0, size_t a1, size_t a2, double a3) { static auto r = real<decltype(&H5Pset_chunk_cache)>("H5Pset_chunk_cache"); In in("H5Pset_chunk_cache"); return r(a0, a1, a2, a3); }
herr_t H5Pset_efile_prefix(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Pset_efile_prefix)>("H5Pset_efile_prefix"); In in("H5Pset_efile_prefix"); return r(a0, a1); }
herr_t H5Pset_virtual_prefix(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Pset_virtual_prefix)>("H5Pset_virtual_prefix"); In in("H5Pset_virtual_prefix"); return r(a0, a1); }
herr_t H5Pset_virtual_printf_gap(hid_t a0, hsize_t a1) { static auto r = real<decltype(&H5Pset_virtual_printf_gap)>("H5Pset_virtual_printf_gap"); In in("H5Pset_virtual_printf_gap"); return r(a0, a1); }
herr_t H5Pset_virtual_view(hid_t a0, H5D_vds_view_t a1) { static auto r = real<decltype(&H5Pset_virtual_view)>("H5Pset_virtual_view"); In in("H5Pset_virtual_view"); return r(a0, a1); }
herr_t H5Pget_btree_ratios(hid_t a0, double * a1, double * a2, double * a3) { static auto r = real<decltype(&H5Pget_btree_ratios)>("H5Pget_btree_ratios"); In in("H5Pget_btree_ratios"); return r(a0, a1, a2, a3); }
size_t H5Pget_buffer(hid_t a0, void ** a1, void ** a2) { static auto r = real<decltype(&H5Pget_buffer)>("H5Pget_buffer"); In in("H5Pget_buffer"); return r(a0, a1, a2); }
ssize_t H5Pget_data_transform(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Pget_data_transform)>("H5Pget_data_transform"); In in("H5Pget_data_transform"); return r(a0, a1, a2); }
H5Z_EDC_t H5Pget_edc_check(hid_t a0) { static auto r = real<decltype(&H5Pget_edc_check)>("H5Pget_edc_check"); In in("H5Pget_edc_check"); return r(a0); }
herr_t H5Pget_hyper_vector_size(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_hyper_vector_size)>("H5Pget_hyper_vector_size"); In in("H5Pget_hyper_vector_size"); return r(a0, a1); }
int H5Pget_preserve(hid_t a0) { static auto r = real<decltype(&H5Pget_preserve)>("H5Pget_preserve"); In in("H5Pget_preserve"); return r(a0); }
herr_t H5Pget_type_conv_cb(hid_t a0, H5T_conv_except_func_t * a1, void ** a2) { static auto r = real<decltype(&H5Pget_type_conv_cb)>("H5Pget_type_conv_cb"); In in("H5Pget_type_conv_cb"); return r(a0, a1, a2); }
herr_t H5Pget_vlen_mem_manager(hid_t a0, H5MM_allocate_t * a1, void ** a2, H5MM_free_t * a3, void ** a4) { static auto r = real<decltype(&H5Pget_vlen_mem_manager)>("H5Pget_vlen_mem_manager"); In in("H5Pget_vlen_mem_manager"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pset_btree_ratios(hid_t a0, double a1, double a2, double a3) { static auto r = real<decltype(&H5Pset_btree_ratios)>("H5Pset_btree_ratios"); In in("H5Pset_btree_ratios"); return r(a0, a1, a2, a3); }
herr_t H5Pset_buffer(hid_t a0, size_t a1, void * a2, void * a3) { static auto r = real<decltype(&H5Pset_buffer)>("H5Pset_buffer"); In in("H5Pset_buffer"); return r(a0, a1, a2, a3); }
herr_t H5Pset_data_transform(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Pset_data_transform)>("H5Pset_data_transform"); In in("H5Pset_data_transform"); return r(a0, a1); }
herr_t H5Pset_edc_check(hid_t a0, H5Z_EDC_t a1) { static auto r = real<decltype(&H5Pset_edc_check)>("H5Pset_edc_check"); In in("H5Pset_edc_check"); return r(a0, a1); }
herr_t H5Pset_filter_callback(hid_t a0, H5Z_filter_func_t a1, void * a2) { static auto r = real<decltype(&H5Pset_filter_callback)>("H5Pset_filter_callback"); In in("H5Pset_filter_callback"); return r(a0, a1, a2); }
herr_t H5Pset_hyper_vector_size(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pset_hyper_vector_size)>("H5Pset_hyper_vector_size"); In in("H5Pset_hyper_vector_size"); return r(a0, a1); }
herr_t H5Pset_preserve(hid_t a0, hbool_t a1) { static auto r = real<decltype(&H5Pset_preserve)>("H5Pset_preserve"); In in("H5Pset_preserve"); return r(a0, a1); }
herr_t H5Pset_type_conv_cb(hid_t a0, H5T_conv_except_func_t a1, void * a2) { static auto r = real<decltype(&H5Pset_type_conv_cb)>("H5Pset_type_conv_cb"); In in("H5Pset_type_conv_cb"); return r(a0, a1, a2); }
herr_t H5Pset_vlen_mem_manager(hid_t a0, H5MM_allocate_t a1, void * a2, H5MM_free_t a3, void * a4) { static auto r = real<decltype(&H5Pset_vlen_mem_manager)>("H5Pset_vlen_mem_manager"); In in("H5Pset_vlen_mem_manager"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pget_create_intermediate_group(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_create_intermediate_group)>("H5Pget_create_intermediate_group"); In in("H5Pget_create_intermediate_group"); return r(a0, a1); }
herr_t H5Pset_create_intermediate_group(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_create_intermediate_group)>("H5Pset_create_intermediate_group"); In in("H5Pset_create_intermediate_group"); return r(a0, a1); }
herr_t H5Pget_est_link_info(hid_t a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5Pget_est_link_info)>("H5Pget_est_link_info"); In in("H5Pget_est_link_info"); return r(a0, a1, a2); }
herr_t H5Pget_link_creation_order(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_link_creation_order)>("H5Pget_link_creation_order"); In in("H5Pget_link_creation_order"); return r(a0, a1); }
herr_t H5Pget_link_phase_change(hid_t a0, unsigned * a1, unsigned * a2) { static auto r = real<decltype(&H5Pget_link_phase_change)>("H5Pget_link_phase_change"); In in("H5Pget_link_phase_change"); return r(a0, a1, a2); }
herr_t H5Pget_local_heap_size_hint(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_local_heap_size_hint)>("H5Pget_local_heap_size_hint"); In in("H5Pget_local_heap_size_hint"); return r(a0, a1); }
herr_t H5Pset_est_link_info(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_est_link_info)>("H5Pset_est_link_info"); In in("H5Pset_est_link_info"); return r(a0, a1, a2); }
herr_t H5Pset_link_creation_order(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_link_creation_order)>("H5Pset_link_creation_order"); In in("H5Pset_link_creation_order"); return r(a0, a1); }
herr_t H5Pset_link_phase_change(hid_t a0, unsigned a1, unsigned a2) { static auto r = real<decltype(&H5Pset_link_phase_change)>("H5Pset_link_phase_change"); In in("H5Pset_link_phase_change"); return r(a0, a1, a2); }
herr_t H5Pset_local_heap_size_hint(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pset_local_heap_size_hint)>("H5Pset_local_heap_size_hint"); In in("H5Pset_local_heap_size_hint"); return r(a0, a1); }
herr_t H5Pget_char_encoding(hid_t a0, H5T_cset_t * a1) { static auto r = real<decltype(&H5Pget_char_encoding)>("H5Pget_char_encoding"); In in("H5Pget_char_encoding"); return r(a0, a1); }
herr_t H5Pset_char_encoding(hid_t a0, H5T_cset_t a1) { static auto r = real<decltype(&H5Pset_char_encoding)>("H5Pset_char_encoding"); In in("H5Pset_char_encoding"); return r(a0, a1); }
herr_t H5Pget_elink_acc_flags(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_elink_acc_flags)>("H5Pget_elink_acc_flags"); In in("H5Pget_elink_acc_flags"); return r(a0, a1); }
herr_t H5Pget_elink_cb(hid_t a0, H5L_elink_traverse_t * a1, void ** a2) { static auto r = real<decltype(&H5Pget_elink_cb)>("H5Pget_elink_cb"); In in("H5Pget_elink_cb"); return r(a0, a1, a2); }
hid_t H5Pget_elink_fapl(hid_t a0) { static auto r = real<decltype(&H5Pget_elink_fapl)>("H5Pget_elink_fapl"); In in("H5Pget_elink_fapl"); return r(a0); }
ssize_t H5Pget_elink_prefix(hid_t a0, char * a1, size_t a2) { static auto r = real<decltype(&H5Pget_elink_prefix)>("H5Pget_elink_prefix"); In in("H5Pget_elink_prefix"); return r(a0, a1, a2); }
herr_t H5Pget_nlinks(hid_t a0, size_t * a1) { static auto r = real<decltype(&H5Pget_nlinks)>("H5Pget_nlinks"); In in("H5Pget_nlinks"); return r(a0, a1); }
herr_t H5Pset_elink_acc_flags(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_elink_acc_flags)>("H5Pset_elink_acc_flags"); In in("H5Pset_elink_acc_flags"); return r(a0, a1); }
herr_t H5Pset_elink_cb(hid_t a0, H5L_elink_traverse_t a1, void * a2) { static auto r = real<decltype(&H5Pset_elink_cb)>("H5Pset_elink_cb"); In in("H5Pset_elink_cb"); return r(a0, a1, a2); }
herr_t H5Pset_elink_fapl(hid_t a0, hid_t a1) { static auto r = real<decltype(&H5Pset_elink_fapl)>("H5Pset_elink_fapl"); In in("H5Pset_elink_fapl"); return r(a0, a1); }
herr_t H5Pset_elink_prefix(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Pset_elink_prefix)>("H5Pset_elink_prefix"); In in("H5Pset_elink_prefix"); return r(a0, a1); }
herr_t H5Pset_nlinks(hid_t a0, size_t a1) { static auto r = real<decltype(&H5Pset_nlinks)>("H5Pset_nlinks"); In in("H5Pset_nlinks"); return r(a0, a1); }
herr_t H5Padd_merge_committed_dtype_path(hid_t a0, const char * a1) { static auto r = real<decltype(&H5Padd_merge_committed_dtype_path)>("H5Padd_merge_committed_dtype_path"); In in("H5Padd_merge_committed_dtype_path"); return r(a0, a1); }
herr_t H5Pfree_merge_committed_dtype_paths(hid_t a0) { static auto r = real<decltype(&H5Pfree_merge_committed_dtype_paths)>("H5Pfree_merge_committed_dtype_paths"); In in("H5Pfree_merge_committed_dtype_paths"); return r(a0); }
herr_t H5Pget_copy_object(hid_t a0, unsigned * a1) { static auto r = real<decltype(&H5Pget_copy_object)>("H5Pget_copy_object"); In in("H5Pget_copy_object"); return r(a0, a1); }
herr_t H5Pget_mcdt_search_cb(hid_t a0, H5O_mcdt_search_cb_t * a1, void ** a2) { static auto r = real<decltype(&H5Pget_mcdt_search_cb)>("H5Pget_mcdt_search_cb"); In in("H5Pget_mcdt_search_cb"); return r(a0, a1, a2); }
herr_t H5Pset_copy_object(hid_t a0, unsigned a1) { static auto r = real<decltype(&H5Pset_copy_object)>("H5Pset_copy_object"); In in("H5Pset_copy_object"); return r(a0, a1); }
herr_t H5Pset_mcdt_search_cb(hid_t a0, H5O_mcdt_search_cb_t a1, void * a2) { static auto r = real<decltype(&H5Pset_mcdt_search_cb)>("H5Pset_mcdt_search_cb"); In in("H5Pset_mcdt_search_cb"); return r(a0, a1, a2); }
herr_t H5Pregister1(hid_t a0, const char * a1, size_t a2, void * a3, H5P_prp_create_func_t a4, H5P_prp_set_func_t a5, H5P_prp_get_func_t a6, H5P_prp_delete_func_t a7, H5P_prp_copy_func_t a8, H5P_prp_close_func_t a9) { static auto r = real<decltype(&H5Pregister1)>("H5Pregister1"); In in("H5Pregister1"); return r(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
herr_t H5Pinsert1(hid_t a0, const char * a1, size_t a2, void * a3, H5P_prp_set_func_t a4, H5P_prp_get_func_t a5, H5P_prp_delete_func_t a6, H5P_prp_copy_func_t a7, H5P_prp_close_func_t a8) { static auto r = real<decltype(&H5Pinsert1)>("H5Pinsert1"); In in("H5Pinsert1"); return r(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
H5Z_filter_t H5Pget_filter1(hid_t a0, unsigned a1, unsigned int * a2, size_t * a3, unsigned a4[], size_t a5, char a6[]) { static auto r = real<decltype(&H5Pget_filter1)>("H5Pget_filter1"); In in("H5Pget_filter1"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Pget_filter_by_id1(hid_t a0, H5Z_filter_t a1, unsigned int * a2, size_t * a3, unsigned a4[], size_t a5, char a6[]) { static auto r = real<decltype(&H5Pget_filter_by_id1)>("H5Pget_filter_by_id1"); In in("H5Pget_filter_by_id1"); return r(a0, a1, a2, a3, a4, a5, a6); }
herr_t H5Pget_version(hid_t a0, unsigned * a1, unsigned * a2, unsigned * a3, unsigned * a4) { static auto r = real<decltype(&H5Pget_version)>("H5Pget_version"); In in("H5Pget_version"); return r(a0, a1, a2, a3, a4); }
herr_t H5Pset_file_space(hid_t a0, H5F_file_space_type_t a1, hsize_t a2) { static auto r = real<decltype(&H5Pset_file_space)>("H5Pset_file_space"); In in("H5Pset_file_space"); return r(a0, a1, a2); }
herr_t H5Pget_file_space(hid_t a0, H5F_file_space_type_t * a1, hsize_t * a2) { static auto r = real<decltype(&H5Pget_file_space)>("H5Pget_file_space"); In in("H5Pget_file_space"); return r(a0, a1, a2); }
herr_t H5PLset_loading_state(unsigned int a0) { static auto r = real<decltype(&H5PLset_loading_state)>("H5PLset_loading_state"); In in("H5PLset_loading_state"); return r(a0); }
herr_t H5PLget_loading_state(unsigned int * a0) { static auto r = real<decltype(&H5PLget_loading_state)>("H5PLget_loading_state"); In in("H5PLget_loading_state"); return r(a0); }
herr_t H5PLappend(const char * a0) { static auto r = real<decltype(&H5PLappend)>("H5PLappend"); In in("H5PLappend"); return r(a0); }
herr_t H5PLprepend(const char * a0) { static auto r = real<decltype(&H5PLprepend)>("H5PLprepend"); In in("H5PLprepend"); return r(a0); }
herr_t H5PLreplace(const char * a0, unsigned int a1) { static auto r = real<decltype(&H5PLreplace)>("H5PLreplace"); In in("H5PLreplace"); return r(a0, a1); }
herr_t H5PLinsert(const char * a0, unsigned int a1) { static auto r = real<decltype(&H5PLinsert)>("H5PLinsert"); In in("H5PLinsert"); return r(a0, a1); }
herr_t H5PLremove(unsigned int a0) { static auto r = real<decltype(&H5PLremove)>("H5PLremove"); In in("H5PLremove"); return r(a0); }
ssize_t H5PLget(unsigned int a0, char * a1, size_t a2) { static auto r = real<decltype(&H5PLget)>("H5PLget"); In in("H5PLget"); return r(a0, a1, a2); }
herr_t H5PLsize(unsigned int * a0) { static auto r = real<decltype(&H5PLsize)>("H5PLsize"); In in("H5PLsize"); return r(a0); }
herr_t H5Rcreate(void * a0, hid_t a1, const char * a2, H5R_type_t a3, hid_t a4) { static auto r = real<decltype(&H5Rcreate)>("H5Rcreate"); In in("H5Rcreate"); return r(a0, a1, a2, a3, a4); }
hid_t H5Rdereference2(hid_t a0, hid_t a1, H5R_type_t a2, const void * a3) { static auto r = real<decltype(&H5Rdereference2)>("H5Rdereference2"); In in("H5Rdereference2"); return r(a0, a1, a2, a3); }
hid_t H5Rget_region(hid_t a0, H5R_type_t a1, const void * a2) { static auto r = real<decltype(&H5Rget_region)>("H5Rget_region"); In in("H5Rget_region"); return r(a0, a1, a2); }
herr_t H5Rget_obj_type2(hid_t a0, H5R_type_t a1, const void * a2, H5O_type_t * a3) { static auto r = real<decltype(&H5Rget_obj_type2)>("H5Rget_obj_type2"); In in("H5Rget_obj_type2"); return r(a0, a1, a2, a3); }
ssize_t H5Rget_name(hid_t a0, H5R_type_t a1, const void * a2, char * a3, size_t a4) { static auto r = real<decltype(&H5Rget_name)>("H5Rget_name"); In in("H5Rget_name"); return r(a0, a1, a2, a3, a4); }
H5G_obj_t H5Rget_obj_type1(hid_t a0, H5R_type_t a1, const void * a2) { static auto r = real<decltype(&H5Rget_obj_type1)>("H5Rget_obj_type1"); In in("H5Rget_obj_type1"); return r(a0, a1, a2); }
hid_t H5Rdereference1(hid_t a0, H5R_type_t a1, const void * a2) { static auto r = real<decltype(&H5Rdereference1)>("H5Rdereference1"); In in("H5Rdereference1"); return r(a0, a1, a2); }
hid_t H5FD_core_init() { static auto r = real<decltype(&H5FD_core_init)>("H5FD_core_init"); In in("H5FD_core_init"); return r(); }
herr_t H5Pset_fapl_core(hid_t a0, size_t a1, hbool_t a2) { static auto r = real<decltype(&H5Pset_fapl_core)>("H5Pset_fapl_core"); In in("H5Pset_fapl_core"); return r(a0, a1, a2); }
herr_t H5Pget_fapl_core(hid_t a0, size_t * a1, hbool_t * a2) { static auto r = real<decltype(&H5Pget_fapl_core)>("H5Pget_fapl_core"); In in("H5Pget_fapl_core"); return r(a0, a1, a2); }
hid_t H5FD_family_init() { static auto r = real<decltype(&H5FD_family_init)>("H5FD_family_init"); In in("H5FD_family_init"); return r(); }
herr_t H5Pset_fapl_family(hid_t a0, hsize_t a1, hid_t a2) { static auto r = real<decltype(&H5Pset_fapl_family)>("H5Pset_fapl_family"); In in("H5Pset_fapl_family"); return r(a0, a1, a2); }
herr_t H5Pget_fapl_family(hid_t a0, hsize_t * a1, hid_t * a2) { static auto r = real<decltype(&H5Pget_fapl_family)>("H5Pget_fapl_family"); In in("H5Pget_fapl_family"); return r(a0, a1, a2); }
hid_t H5FD_hdfs_init() { static auto r = real<decltype(&H5FD_hdfs_init)>("H5FD_hdfs_init"); In in("H5FD_hdfs_init"); return r(); }
herr_t H5Pget_fapl_hdfs(hid_t a0, H5FD_hdfs_fapl_t * a1) { static auto r = real<decltype(&H5Pget_fapl_hdfs)>("H5Pget_fapl_hdfs"); In in("H5Pget_fapl_hdfs"); return r(a0, a1); }
herr_t H5Pset_fapl_hdfs(hid_t a0, H5FD_hdfs_fapl_t * a1) { static auto r = real<decltype(&H5Pset_fapl_hdfs)>("H5Pset_fapl_hdfs"); In in("H5Pset_fapl_hdfs"); return r(a0, a1); }
hid_t H5FD_log_init() { static auto r = real<decltype(&H5FD_log_init)>("H5FD_log_init"); In in("H5FD_log_init"); return r(); }
herr_t H5Pset_fapl_log(hid_t a0, const char * a1, unsigned long long a2, size_t a3) { static auto r = real<decltype(&H5Pset_fapl_log)>("H5Pset_fapl_log"); In in("H5Pset_fapl_log"); return r(a0, a1, a2, a3); }
hid_t H5FD_multi_init() { static auto r = real<decltype(&H5FD_multi_init)>("H5FD_multi_init"); In in("H5FD_multi_init"); return r(); }
herr_t H5Pset_fapl_multi(hid_t a0, const H5FD_mem_t * a1, const hid_t * a2, const char *const * a3, const haddr_t * a4, hbool_t a5) { static auto r = real<decltype(&H5Pset_fapl_multi)>("H5Pset_fapl_multi"); In in("H5Pset_fapl_multi"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Pget_fapl_multi(hid_t a0, H5FD_mem_t * a1, hid_t * a2, char ** a3, haddr_t * a4, hbool_t * a5) { static auto r = real<decltype(&H5Pget_fapl_multi)>("H5Pget_fapl_multi"); In in("H5Pget_fapl_multi"); return r(a0, a1, a2, a3, a4, a5); }
herr_t H5Pset_fapl_split(hid_t a0, const char * a1, hid_t a2, const char * a3, hid_t a4) { static auto r = real<decltype(&H5Pset_fapl_split)>("H5Pset_fapl_split"); In in("H5Pset_fapl_split"); return r(a0, a1, a2, a3, a4); }
hid_t H5FD_ros3_init() { static auto r = real<decltype(&H5FD_ros3_init)>("H5FD_ros3_init"); In in("H5FD_ros3_init"); return r(); }
herr_t H5Pget_fapl_ros3(hid_t a0, H5FD_ros3_fapl_t * a1) { static auto r = real<decltype(&H5Pget_fapl_ros3)>("H5Pget_fapl_ros3"); In in("H5Pget_fapl_ros3"); return r(a0, a1); }
herr_t H5Pset_fapl_ros3(hid_t a0, H5FD_ros3_fapl_t * a1) { static auto r = real<decltype(&H5Pset_fapl_ros3)>("H5Pset_fapl_ros3"); In in("H5Pset_fapl_ros3"); return r(a0, a1); }
hid_t H5FD_sec2_init() { static auto r = real<decltype(&H5FD_sec2_init)>("H5FD_sec2_init"); In in("H5FD_sec2_init"); return r(); }
herr_t H5Pset_fapl_sec2(hid_t a0) { static auto r = real<decltype(&H5Pset_fapl_sec2)>("H5Pset_fapl_sec2"); In in("H5Pset_fapl_sec2"); return r(a0); }
hid_t H5FD_splitter_init() { static auto r = real<decltype(&H5FD_splitter_init)>("H5FD_splitter_init"); In in("H5FD_splitter_init"); return r(); }
herr_t H5Pset_fapl_splitter(hid_t a0, H5FD_splitter_vfd_config_t * a1) { static auto r = real<decltype(&H5Pset_fapl_splitter)>("H5Pset_fapl_splitter"); In in("H5Pset_fapl_splitter"); return r(a0, a1); }
herr_t H5Pget_fapl_splitter(hid_t a0, H5FD_splitter_vfd_config_t * a1) { static auto r = real<decltype(&H5Pget_fapl_splitter)>("H5Pget_fapl_splitter"); In in("H5Pget_fapl_splitter"); return r(a0, a1); }
hid_t H5FD_stdio_init() { static auto r = real<decltype(&H5FD_stdio_init)>("H5FD_stdio_init"); In in("H5FD_stdio_init"); return r(); }
herr_t H5Pset_fapl_stdio(hid_t a0) { static auto r = real<decltype(&H5Pset_fapl_stdio)>("H5Pset_fapl_stdio"); In in("H5Pset_fapl_stdio"); return r(a0); }
}
