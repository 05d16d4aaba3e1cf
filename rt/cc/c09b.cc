// Generated by gen_sig.py.
#include "rt/src/c09b.rs.h"
namespace c09b {
[[maybe_unused]] static float mk_f32(int k);
[[maybe_unused]] static bool ck_f32(float const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f32(float const & v);
[[maybe_unused]] static S3 mk_S3(int k);
[[maybe_unused]] static bool ck_S3(S3 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S3(S3 const & v);
[[maybe_unused]] static bool ck_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_RObj(RObj const & v);
[[maybe_unused]] static rust::Box<RObj> mk_Box_RObj(int k);
[[maybe_unused]] static bool ck_Box_RObj(rust::Box<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v);
[[maybe_unused]] static std::uint8_t mk_u8(int k);
[[maybe_unused]] static bool ck_u8(std::uint8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u8(std::uint8_t const & v);
[[maybe_unused]] static S2 mk_S2(int k);
[[maybe_unused]] static bool ck_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S2(S2 const & v);
[[maybe_unused]] static rust::Box<S2> mk_Box_S2(int k);
[[maybe_unused]] static bool ck_Box_S2(rust::Box<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_S2(rust::Box<S2> const & v);
[[maybe_unused]] static rust::String mk_String(int k);
[[maybe_unused]] static bool ck_String(rust::String const & v, int k); [[maybe_unused]] static std::uintptr_t ad_String(rust::String const & v);
[[maybe_unused]] static S7 mk_S7(int k);
[[maybe_unused]] static bool ck_S7(S7 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S7(S7 const & v);
[[maybe_unused]] static rust::Box<S7> mk_Box_S7(int k);
[[maybe_unused]] static bool ck_Box_S7(rust::Box<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_S7(rust::Box<S7> const & v);
[[maybe_unused]] static std::int32_t mk_i32(int k);
[[maybe_unused]] static bool ck_i32(std::int32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i32(std::int32_t const & v);
[[maybe_unused]] static TrivA mk_TrivA(int k);
[[maybe_unused]] static bool ck_TrivA(TrivA const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivA(TrivA const & v);
[[maybe_unused]] static rust::Box<TrivA> mk_Box_TrivA(int k);
[[maybe_unused]] static bool ck_Box_TrivA(rust::Box<TrivA> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_TrivA(rust::Box<TrivA> const & v);
[[maybe_unused]] static rust::Vec<std::uint8_t> mk_Vec_u8(int k);
[[maybe_unused]] static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v);
[[maybe_unused]] static std::int64_t mk_i64(int k);
[[maybe_unused]] static bool ck_i64(std::int64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i64(std::int64_t const & v);
[[maybe_unused]] static rust::Vec<std::int64_t> mk_Vec_i64(int k);
[[maybe_unused]] static bool ck_Vec_i64(rust::Vec<std::int64_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_i64(rust::Vec<std::int64_t> const & v);
[[maybe_unused]] static bool mk_bool(int k);
[[maybe_unused]] static bool ck_bool(bool const & v, int k); [[maybe_unused]] static std::uintptr_t ad_bool(bool const & v);
[[maybe_unused]] static rust::Vec<bool> mk_Vec_bool(int k);
[[maybe_unused]] static bool ck_Vec_bool(rust::Vec<bool> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_bool(rust::Vec<bool> const & v);
[[maybe_unused]] static rust::Vec<float> mk_Vec_f32(int k);
[[maybe_unused]] static bool ck_Vec_f32(rust::Vec<float> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_f32(rust::Vec<float> const & v);
[[maybe_unused]] static std::size_t mk_usize(int k);
[[maybe_unused]] static bool ck_usize(std::size_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_usize(std::size_t const & v);
[[maybe_unused]] static rust::Vec<std::size_t> mk_Vec_usize(int k);
[[maybe_unused]] static bool ck_Vec_usize(rust::Vec<std::size_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_usize(rust::Vec<std::size_t> const & v);
[[maybe_unused]] static char mk_c_char(int k);
[[maybe_unused]] static bool ck_c_char(char const & v, int k); [[maybe_unused]] static std::uintptr_t ad_c_char(char const & v);
[[maybe_unused]] static rust::Vec<char> mk_Vec_c_char(int k);
[[maybe_unused]] static bool ck_Vec_c_char(rust::Vec<char> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_c_char(rust::Vec<char> const & v);
[[maybe_unused]] static rust::Vec<rust::String> mk_Vec_String(int k);
[[maybe_unused]] static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v);
[[maybe_unused]] static rust::Vec<S2> mk_Vec_S2(int k);
[[maybe_unused]] static bool ck_Vec_S2(rust::Vec<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_S2(rust::Vec<S2> const & v);
[[maybe_unused]] static rust::Vec<S7> mk_Vec_S7(int k);
[[maybe_unused]] static bool ck_Vec_S7(rust::Vec<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_S7(rust::Vec<S7> const & v);
[[maybe_unused]] static rust::Vec<RObj> mk_Vec_RObj(int k);
[[maybe_unused]] static bool ck_Vec_RObj(rust::Vec<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_RObj(rust::Vec<RObj> const & v);
[[maybe_unused]] static Ei8 mk_Ei8(int k);
[[maybe_unused]] static bool ck_Ei8(Ei8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei8(Ei8 const & v);
[[maybe_unused]] static rust::Vec<Ei8> mk_Vec_Ei8(int k);
[[maybe_unused]] static bool ck_Vec_Ei8(rust::Vec<Ei8> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_Ei8(rust::Vec<Ei8> const & v);
[[maybe_unused]] static rust::Vec<TrivA> mk_Vec_TrivA(int k);
[[maybe_unused]] static bool ck_Vec_TrivA(rust::Vec<TrivA> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_TrivA(rust::Vec<TrivA> const & v);
[[maybe_unused]] static CObj mk_CObj(int k);
[[maybe_unused]] static bool ck_CObj(CObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CObj(CObj const & v);
[[maybe_unused]] static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v);
[[maybe_unused]] static std::string mk_CxxString(int k);
[[maybe_unused]] static bool ck_CxxString(std::string const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxString(std::string const & v);
[[maybe_unused]] static std::unique_ptr<std::string> mk_UniquePtr_CxxString(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxString(std::unique_ptr<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxString(std::unique_ptr<std::string> const & v);
[[maybe_unused]] static std::unique_ptr<S2> mk_UniquePtr_S2(int k);
[[maybe_unused]] static bool ck_UniquePtr_S2(std::unique_ptr<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_S2(std::unique_ptr<S2> const & v);
[[maybe_unused]] static std::unique_ptr<S7> mk_UniquePtr_S7(int k);
[[maybe_unused]] static bool ck_UniquePtr_S7(std::unique_ptr<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_S7(std::unique_ptr<S7> const & v);
[[maybe_unused]] static std::unique_ptr<TrivA> mk_UniquePtr_TrivA(int k);
[[maybe_unused]] static bool ck_UniquePtr_TrivA(std::unique_ptr<TrivA> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_TrivA(std::unique_ptr<TrivA> const & v);
[[maybe_unused]] static std::uint16_t mk_u16(int k);
[[maybe_unused]] static bool ck_u16(std::uint16_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u16(std::uint16_t const & v);
[[maybe_unused]] static std::vector<std::uint16_t> mk_CxxVector_u16(int k);
[[maybe_unused]] static bool ck_CxxVector_u16(std::vector<std::uint16_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_u16(std::vector<std::uint16_t> const & v);
[[maybe_unused]] static std::unique_ptr<std::vector<std::uint16_t>> mk_UniquePtr_CxxVector_u16(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> const & v);
[[maybe_unused]] static std::vector<std::string> mk_CxxVector_CxxString(int k);
[[maybe_unused]] static bool ck_CxxVector_CxxString(std::vector<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_CxxString(std::vector<std::string> const & v);
[[maybe_unused]] static std::unique_ptr<std::vector<std::string>> mk_UniquePtr_CxxVector_CxxString(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> const & v);
[[maybe_unused]] static std::vector<CObj> mk_CxxVector_CObj(int k);
[[maybe_unused]] static bool ck_CxxVector_CObj(std::vector<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_CObj(std::vector<CObj> const & v);
[[maybe_unused]] static std::unique_ptr<std::vector<CObj>> mk_UniquePtr_CxxVector_CObj(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> const & v);
[[maybe_unused]] static std::vector<S7> mk_CxxVector_S7(int k);
[[maybe_unused]] static bool ck_CxxVector_S7(std::vector<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_S7(std::vector<S7> const & v);
[[maybe_unused]] static std::unique_ptr<std::vector<S7>> mk_UniquePtr_CxxVector_S7(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> const & v);
[[maybe_unused]] static double mk_f64(int k);
[[maybe_unused]] static bool ck_f64(double const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f64(double const & v);
[[maybe_unused]] static std::vector<double> mk_CxxVector_f64(int k);
[[maybe_unused]] static bool ck_CxxVector_f64(std::vector<double> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_f64(std::vector<double> const & v);
[[maybe_unused]] static std::unique_ptr<std::vector<double>> mk_UniquePtr_CxxVector_f64(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> const & v);
[[maybe_unused]] static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v);
[[maybe_unused]] static std::shared_ptr<std::string> mk_SharedPtr_CxxString(int k);
[[maybe_unused]] static bool ck_SharedPtr_CxxString(std::shared_ptr<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_CxxString(std::shared_ptr<std::string> const & v);
[[maybe_unused]] static std::uint32_t mk_u32(int k);
[[maybe_unused]] static bool ck_u32(std::uint32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u32(std::uint32_t const & v);
[[maybe_unused]] static std::shared_ptr<std::uint32_t> mk_SharedPtr_u32(int k);
[[maybe_unused]] static bool ck_SharedPtr_u32(std::shared_ptr<std::uint32_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_u32(std::shared_ptr<std::uint32_t> const & v);
[[maybe_unused]] static std::shared_ptr<bool> mk_SharedPtr_bool(int k);
[[maybe_unused]] static bool ck_SharedPtr_bool(std::shared_ptr<bool> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_bool(std::shared_ptr<bool> const & v);
[[maybe_unused]] static std::shared_ptr<double> mk_SharedPtr_f64(int k);
[[maybe_unused]] static bool ck_SharedPtr_f64(std::shared_ptr<double> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_f64(std::shared_ptr<double> const & v);
[[maybe_unused]] static std::shared_ptr<S7> mk_SharedPtr_S7(int k);
[[maybe_unused]] static bool ck_SharedPtr_S7(std::shared_ptr<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_S7(std::shared_ptr<S7> const & v);
[[maybe_unused]] static std::shared_ptr<TrivA> mk_SharedPtr_TrivA(int k);
[[maybe_unused]] static bool ck_SharedPtr_TrivA(std::shared_ptr<TrivA> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_TrivA(std::shared_ptr<TrivA> const & v);
[[maybe_unused]] static std::weak_ptr<CObj> mk_WeakPtr_CObj(int k);
[[maybe_unused]] static bool ck_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_WeakPtr_CObj(std::weak_ptr<CObj> const & v);
[[maybe_unused]] static std::weak_ptr<std::string> mk_WeakPtr_CxxString(int k);
[[maybe_unused]] static bool ck_WeakPtr_CxxString(std::weak_ptr<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_WeakPtr_CxxString(std::weak_ptr<std::string> const & v);
[[maybe_unused]] static std::shared_ptr<std::int64_t> mk_SharedPtr_i64(int k);
[[maybe_unused]] static bool ck_SharedPtr_i64(std::shared_ptr<std::int64_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_i64(std::shared_ptr<std::int64_t> const & v);
[[maybe_unused]] static std::weak_ptr<std::int64_t> mk_WeakPtr_i64(int k);
[[maybe_unused]] static bool ck_WeakPtr_i64(std::weak_ptr<std::int64_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_WeakPtr_i64(std::weak_ptr<std::int64_t> const & v);
[[maybe_unused]] static std::shared_ptr<S2> mk_SharedPtr_S2(int k);
[[maybe_unused]] static bool ck_SharedPtr_S2(std::shared_ptr<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_S2(std::shared_ptr<S2> const & v);
[[maybe_unused]] static std::weak_ptr<S2> mk_WeakPtr_S2(int k);
[[maybe_unused]] static bool ck_WeakPtr_S2(std::weak_ptr<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_WeakPtr_S2(std::weak_ptr<S2> const & v);
[[maybe_unused]] static std::uint8_t const & mk_ref_u8(int k);
[[maybe_unused]] static bool ck_ref_u8(std::uint8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_u8(std::uint8_t const & v);
[[maybe_unused]] static std::uint64_t mk_u64(int k);
[[maybe_unused]] static bool ck_u64(std::uint64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u64(std::uint64_t const & v);
[[maybe_unused]] static std::uint64_t const & mk_ref_u64(int k);
[[maybe_unused]] static bool ck_ref_u64(std::uint64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_u64(std::uint64_t const & v);
[[maybe_unused]] static double const & mk_ref_f64(int k);
[[maybe_unused]] static bool ck_ref_f64(double const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_f64(double const & v);
[[maybe_unused]] static bool const & mk_ref_bool(int k);
[[maybe_unused]] static bool ck_ref_bool(bool const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_bool(bool const & v);
[[maybe_unused]] static rust::String const & mk_ref_String(int k);
[[maybe_unused]] static bool ck_ref_String(rust::String const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_String(rust::String const & v);
[[maybe_unused]] static S2 const & mk_ref_S2(int k);
[[maybe_unused]] static bool ck_ref_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_S2(S2 const & v);
[[maybe_unused]] static S7 const & mk_ref_S7(int k);
[[maybe_unused]] static bool ck_ref_S7(S7 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_S7(S7 const & v);
[[maybe_unused]] static RObj const & mk_ref_RObj(int k);
[[maybe_unused]] static bool ck_ref_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_RObj(RObj const & v);
[[maybe_unused]] static CObj const & mk_ref_CObj(int k);
[[maybe_unused]] static bool ck_ref_CObj(CObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_CObj(CObj const & v);
[[maybe_unused]] static std::string const & mk_ref_CxxString(int k);
[[maybe_unused]] static bool ck_ref_CxxString(std::string const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_CxxString(std::string const & v);
[[maybe_unused]] static std::vector<std::uint8_t> mk_CxxVector_u8(int k);
[[maybe_unused]] static bool ck_CxxVector_u8(std::vector<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_u8(std::vector<std::uint8_t> const & v);
[[maybe_unused]] static std::vector<std::uint8_t> const & mk_ref_CxxVector_u8(int k);
[[maybe_unused]] static bool ck_ref_CxxVector_u8(std::vector<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_CxxVector_u8(std::vector<std::uint8_t> const & v);
[[maybe_unused]] static std::vector<std::string> const & mk_ref_CxxVector_CxxString(int k);
[[maybe_unused]] static bool ck_ref_CxxVector_CxxString(std::vector<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_CxxVector_CxxString(std::vector<std::string> const & v);
[[maybe_unused]] static rust::Vec<std::uint8_t> const & mk_ref_Vec_u8(int k);
[[maybe_unused]] static bool ck_ref_Vec_u8(rust::Vec<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_Vec_u8(rust::Vec<std::uint8_t> const & v);
[[maybe_unused]] static rust::Vec<rust::String> const & mk_ref_Vec_String(int k);
[[maybe_unused]] static bool ck_ref_Vec_String(rust::Vec<rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_Vec_String(rust::Vec<rust::String> const & v);
[[maybe_unused]] static rust::Vec<RObj> const & mk_ref_Vec_RObj(int k);
[[maybe_unused]] static bool ck_ref_Vec_RObj(rust::Vec<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_Vec_RObj(rust::Vec<RObj> const & v);
[[maybe_unused]] static rust::Box<RObj> const & mk_ref_Box_RObj(int k);
[[maybe_unused]] static bool ck_ref_Box_RObj(rust::Box<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_Box_RObj(rust::Box<RObj> const & v);
[[maybe_unused]] static std::unique_ptr<CObj> const & mk_ref_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & v);
[[maybe_unused]] static std::shared_ptr<CObj> const & mk_ref_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & v);
[[maybe_unused]] static std::weak_ptr<CObj> const & mk_ref_WeakPtr_CObj(int k);
[[maybe_unused]] static bool ck_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & v);
[[maybe_unused]] static Eu8 mk_Eu8(int k);
[[maybe_unused]] static bool ck_Eu8(Eu8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu8(Eu8 const & v);
[[maybe_unused]] static Eu8 const & mk_ref_Eu8(int k);
[[maybe_unused]] static bool ck_ref_Eu8(Eu8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_Eu8(Eu8 const & v);
[[maybe_unused]] static TrivA const & mk_ref_TrivA(int k);
[[maybe_unused]] static bool ck_ref_TrivA(TrivA const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_TrivA(TrivA const & v);
[[maybe_unused]] static std::uint8_t &cs_u8(int k); [[maybe_unused]] static std::uint8_t &cp_u8(int k);
[[maybe_unused]] static std::uint64_t &cs_u64(int k); [[maybe_unused]] static std::uint64_t &cp_u64(int k);
[[maybe_unused]] static double &cs_f64(int k); [[maybe_unused]] static double &cp_f64(int k);
[[maybe_unused]] static bool &cs_bool(int k); [[maybe_unused]] static bool &cp_bool(int k);
[[maybe_unused]] static rust::String &cs_String(int k); [[maybe_unused]] static rust::String &cp_String(int k);
[[maybe_unused]] static S2 &cs_S2(int k); [[maybe_unused]] static S2 &cp_S2(int k);
[[maybe_unused]] static S7 &cs_S7(int k); [[maybe_unused]] static S7 &cp_S7(int k);
[[maybe_unused]] static RObj &cs_RObj(int k); [[maybe_unused]] static RObj &cp_RObj(int k);
[[maybe_unused]] static CObj &cs_CObj(int k); [[maybe_unused]] static CObj &cp_CObj(int k);
[[maybe_unused]] static std::string &cs_CxxString(int k); [[maybe_unused]] static std::string &cp_CxxString(int k);
[[maybe_unused]] static std::vector<std::uint8_t> &cs_CxxVector_u8(int k); [[maybe_unused]] static std::vector<std::uint8_t> &cp_CxxVector_u8(int k);
[[maybe_unused]] static std::vector<std::string> &cs_CxxVector_CxxString(int k); [[maybe_unused]] static std::vector<std::string> &cp_CxxVector_CxxString(int k);
[[maybe_unused]] static rust::Vec<std::uint8_t> &cs_Vec_u8(int k); [[maybe_unused]] static rust::Vec<std::uint8_t> &cp_Vec_u8(int k);
[[maybe_unused]] static rust::Vec<rust::String> &cs_Vec_String(int k); [[maybe_unused]] static rust::Vec<rust::String> &cp_Vec_String(int k);
[[maybe_unused]] static rust::Vec<RObj> &cs_Vec_RObj(int k); [[maybe_unused]] static rust::Vec<RObj> &cp_Vec_RObj(int k);
[[maybe_unused]] static rust::Box<RObj> &cs_Box_RObj(int k); [[maybe_unused]] static rust::Box<RObj> &cp_Box_RObj(int k);
[[maybe_unused]] static std::unique_ptr<CObj> &cs_UniquePtr_CObj(int k); [[maybe_unused]] static std::unique_ptr<CObj> &cp_UniquePtr_CObj(int k);
[[maybe_unused]] static std::shared_ptr<CObj> &cs_SharedPtr_CObj(int k); [[maybe_unused]] static std::shared_ptr<CObj> &cp_SharedPtr_CObj(int k);
[[maybe_unused]] static std::weak_ptr<CObj> &cs_WeakPtr_CObj(int k); [[maybe_unused]] static std::weak_ptr<CObj> &cp_WeakPtr_CObj(int k);
[[maybe_unused]] static Eu8 &cs_Eu8(int k); [[maybe_unused]] static Eu8 &cp_Eu8(int k);
[[maybe_unused]] static TrivA &cs_TrivA(int k); [[maybe_unused]] static TrivA &cp_TrivA(int k);
static float mk_f32(int k) { std::uint32_t t[4] = {0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001}; float r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f32(float const & v, int k) { (void)k; return [&]{ auto w = mk_f32(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f32(float const & v) { (void)v; return 0; }
static S3 mk_S3(int k) { return S3{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3)}; }
static bool ck_S3(S3 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f32(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S3(S3 const & v) { (void)v; return 0; }
static bool ck_RObj(RObj const & v, int k) { (void)k; return v.r_tag() == k; }
static std::uintptr_t ad_RObj(RObj const & v) { (void)v; return 0; }
static rust::Box<RObj> mk_Box_RObj(int k) { return r_new(k); }
static bool ck_Box_RObj(rust::Box<RObj> const & v, int k) { (void)k; return ck_RObj(*v, k); }
static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v) { (void)v; return 0; }
static std::uint8_t mk_u8(int k) { std::uint8_t t[4] = {0, 1, 128, 255}; return t[k]; }
static bool ck_u8(std::uint8_t const & v, int k) { (void)k; return v == mk_u8(k); }
static std::uintptr_t ad_u8(std::uint8_t const & v) { (void)v; return 0; }
static S2 mk_S2(int k) { return S2{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S2(S2 const & v, int k) { (void)k; return ck_u8(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S2(S2 const & v) { (void)v; return 0; }
static rust::Box<S2> mk_Box_S2(int k) { return rust::Box<S2>(mk_S2(k)); }
static bool ck_Box_S2(rust::Box<S2> const & v, int k) { (void)k; return ck_S2(*v, k); }
static std::uintptr_t ad_Box_S2(rust::Box<S2> const & v) { (void)v; return 0; }
static rust::String mk_String(int k) { return rust::String(TXT[k]); }
static bool ck_String(rust::String const & v, int k) { (void)k; return std::string(v) == TXT[k]; }
static std::uintptr_t ad_String(rust::String const & v) { (void)v; return 0; }
static S7 mk_S7(int k) { return S7{mk_String((k + 0) & 3)}; }
static bool ck_S7(S7 const & v, int k) { (void)k; return ck_String(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S7(S7 const & v) { (void)v; return 0; }
static rust::Box<S7> mk_Box_S7(int k) { return rust::Box<S7>(mk_S7(k)); }
static bool ck_Box_S7(rust::Box<S7> const & v, int k) { (void)k; return ck_S7(*v, k); }
static std::uintptr_t ad_Box_S7(rust::Box<S7> const & v) { (void)v; return 0; }
static std::int32_t mk_i32(int k) { std::int32_t t[4] = {0, 1, -2147483648ll, 2147483647}; return t[k]; }
static bool ck_i32(std::int32_t const & v, int k) { (void)k; return v == mk_i32(k); }
static std::uintptr_t ad_i32(std::int32_t const & v) { (void)v; return 0; }
static TrivA mk_TrivA(int k) { return TrivA{mk_i32((k + 0) & 3)}; }
static bool ck_TrivA(TrivA const & v, int k) { (void)k; return ck_i32(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_TrivA(TrivA const & v) { (void)v; return 0; }
static rust::Box<TrivA> mk_Box_TrivA(int k) { return rust::Box<TrivA>(mk_TrivA(k)); }
static bool ck_Box_TrivA(rust::Box<TrivA> const & v, int k) { (void)k; return ck_TrivA(*v, k); }
static std::uintptr_t ad_Box_TrivA(rust::Box<TrivA> const & v) { (void)v; return 0; }
static rust::Vec<std::uint8_t> mk_Vec_u8(int k) { rust::Vec<std::uint8_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u8((k + i) & 3)); return v; }
static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v) { (void)v; return 0; }
static std::int64_t mk_i64(int k) { std::int64_t t[4] = {0, 1, INT64_MIN, 9223372036854775807ll}; return t[k]; }
static bool ck_i64(std::int64_t const & v, int k) { (void)k; return v == mk_i64(k); }
static std::uintptr_t ad_i64(std::int64_t const & v) { (void)v; return 0; }
static rust::Vec<std::int64_t> mk_Vec_i64(int k) { rust::Vec<std::int64_t> v; for (int i = 0; i < k; i++) v.push_back(mk_i64((k + i) & 3)); return v; }
static bool ck_Vec_i64(rust::Vec<std::int64_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_i64(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_i64(rust::Vec<std::int64_t> const & v) { (void)v; return 0; }
static bool mk_bool(int k) { return k & 1; }
static bool ck_bool(bool const & v, int k) { (void)k; return v == bool(k & 1); }
static std::uintptr_t ad_bool(bool const & v) { (void)v; return 0; }
static rust::Vec<bool> mk_Vec_bool(int k) { rust::Vec<bool> v; for (int i = 0; i < k; i++) v.push_back(mk_bool((k + i) & 3)); return v; }
static bool ck_Vec_bool(rust::Vec<bool> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_bool(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_bool(rust::Vec<bool> const & v) { (void)v; return 0; }
static rust::Vec<float> mk_Vec_f32(int k) { rust::Vec<float> v; for (int i = 0; i < k; i++) v.push_back(mk_f32((k + i) & 3)); return v; }
static bool ck_Vec_f32(rust::Vec<float> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_f32(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_f32(rust::Vec<float> const & v) { (void)v; return 0; }
static std::size_t mk_usize(int k) { std::size_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_usize(std::size_t const & v, int k) { (void)k; return v == mk_usize(k); }
static std::uintptr_t ad_usize(std::size_t const & v) { (void)v; return 0; }
static rust::Vec<std::size_t> mk_Vec_usize(int k) { rust::Vec<std::size_t> v; for (int i = 0; i < k; i++) v.push_back(mk_usize((k + i) & 3)); return v; }
static bool ck_Vec_usize(rust::Vec<std::size_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_usize(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_usize(rust::Vec<std::size_t> const & v) { (void)v; return 0; }
static char mk_c_char(int k) { char t[4] = {'\0', 'a', char(0x80), char(0xff)}; return t[k]; }
static bool ck_c_char(char const & v, int k) { (void)k; return v == mk_c_char(k); }
static std::uintptr_t ad_c_char(char const & v) { (void)v; return 0; }
static rust::Vec<char> mk_Vec_c_char(int k) { rust::Vec<char> v; for (int i = 0; i < k; i++) v.push_back(mk_c_char((k + i) & 3)); return v; }
static bool ck_Vec_c_char(rust::Vec<char> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_c_char(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_c_char(rust::Vec<char> const & v) { (void)v; return 0; }
static rust::Vec<rust::String> mk_Vec_String(int k) { rust::Vec<rust::String> v; for (int i = 0; i < k; i++) v.push_back(mk_String((k + i) & 3)); return v; }
static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_String(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v) { (void)v; return 0; }
static rust::Vec<S2> mk_Vec_S2(int k) { rust::Vec<S2> v; for (int i = 0; i < k; i++) v.push_back(mk_S2((k + i) & 3)); return v; }
static bool ck_Vec_S2(rust::Vec<S2> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S2(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_S2(rust::Vec<S2> const & v) { (void)v; return 0; }
static rust::Vec<S7> mk_Vec_S7(int k) { rust::Vec<S7> v; for (int i = 0; i < k; i++) v.push_back(mk_S7((k + i) & 3)); return v; }
static bool ck_Vec_S7(rust::Vec<S7> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S7(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_S7(rust::Vec<S7> const & v) { (void)v; return 0; }
static rust::Vec<RObj> mk_Vec_RObj(int k) { return r_make_Vec_RObj(k); }
static bool ck_Vec_RObj(rust::Vec<RObj> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_RObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_RObj(rust::Vec<RObj> const & v) { (void)v; return 0; }
static Ei8 mk_Ei8(int k) { Ei8 t[4] = {Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3}; return t[k]; }
static bool ck_Ei8(Ei8 const & v, int k) { (void)k; return v == mk_Ei8(k); }
static std::uintptr_t ad_Ei8(Ei8 const & v) { (void)v; return 0; }
static rust::Vec<Ei8> mk_Vec_Ei8(int k) { rust::Vec<Ei8> v; for (int i = 0; i < k; i++) v.push_back(mk_Ei8((k + i) & 3)); return v; }
static bool ck_Vec_Ei8(rust::Vec<Ei8> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Ei8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_Ei8(rust::Vec<Ei8> const & v) { (void)v; return 0; }
static rust::Vec<TrivA> mk_Vec_TrivA(int k) { rust::Vec<TrivA> v; for (int i = 0; i < k; i++) v.push_back(mk_TrivA((k + i) & 3)); return v; }
static bool ck_Vec_TrivA(rust::Vec<TrivA> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_TrivA(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_TrivA(rust::Vec<TrivA> const & v) { (void)v; return 0; }
static CObj mk_CObj(int k) { return CObj(k); }
static bool ck_CObj(CObj const & v, int k) { (void)k; return v.c_tag() == k; }
static std::uintptr_t ad_CObj(CObj const & v) { (void)v; return 0; }
static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k) { return k == 3 ? nullptr : std::unique_ptr<CObj>(new CObj(k)); }
static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CObj(*v, k); }
static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v) { (void)v; return 0; }
static std::string mk_CxxString(int k) { return TXT[k]; }
static bool ck_CxxString(std::string const & v, int k) { (void)k; return v == TXT[k]; }
static std::uintptr_t ad_CxxString(std::string const & v) { (void)v; return 0; }
static std::unique_ptr<std::string> mk_UniquePtr_CxxString(int k) { return k == 3 ? nullptr : std::unique_ptr<std::string>(new std::string(mk_CxxString(k))); }
static bool ck_UniquePtr_CxxString(std::unique_ptr<std::string> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxString(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxString(std::unique_ptr<std::string> const & v) { (void)v; return 0; }
static std::unique_ptr<S2> mk_UniquePtr_S2(int k) { return k == 3 ? nullptr : std::unique_ptr<S2>(new S2(mk_S2(k))); }
static bool ck_UniquePtr_S2(std::unique_ptr<S2> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_S2(*v, k); }
static std::uintptr_t ad_UniquePtr_S2(std::unique_ptr<S2> const & v) { (void)v; return 0; }
static std::unique_ptr<S7> mk_UniquePtr_S7(int k) { return k == 3 ? nullptr : std::unique_ptr<S7>(new S7(mk_S7(k))); }
static bool ck_UniquePtr_S7(std::unique_ptr<S7> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_S7(*v, k); }
static std::uintptr_t ad_UniquePtr_S7(std::unique_ptr<S7> const & v) { (void)v; return 0; }
static std::unique_ptr<TrivA> mk_UniquePtr_TrivA(int k) { return k == 3 ? nullptr : std::unique_ptr<TrivA>(new TrivA(mk_TrivA(k))); }
static bool ck_UniquePtr_TrivA(std::unique_ptr<TrivA> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_TrivA(*v, k); }
static std::uintptr_t ad_UniquePtr_TrivA(std::unique_ptr<TrivA> const & v) { (void)v; return 0; }
static std::uint16_t mk_u16(int k) { std::uint16_t t[4] = {0, 1, 32768, 65535}; return t[k]; }
static bool ck_u16(std::uint16_t const & v, int k) { (void)k; return v == mk_u16(k); }
static std::uintptr_t ad_u16(std::uint16_t const & v) { (void)v; return 0; }
static std::vector<std::uint16_t> mk_CxxVector_u16(int k) { std::vector<std::uint16_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u16((k + i) & 3)); return v; }
static bool ck_CxxVector_u16(std::vector<std::uint16_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u16(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_u16(std::vector<std::uint16_t> const & v) { (void)v; return 0; }
static std::unique_ptr<std::vector<std::uint16_t>> mk_UniquePtr_CxxVector_u16(int k) { return k == 3 ? nullptr : std::unique_ptr<std::vector<std::uint16_t>>(new std::vector<std::uint16_t>(mk_CxxVector_u16(k))); }
static bool ck_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxVector_u16(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> const & v) { (void)v; return 0; }
static std::vector<std::string> mk_CxxVector_CxxString(int k) { std::vector<std::string> v; for (int i = 0; i < k; i++) v.push_back(mk_CxxString((k + i) & 3)); return v; }
static bool ck_CxxVector_CxxString(std::vector<std::string> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_CxxString(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_CxxString(std::vector<std::string> const & v) { (void)v; return 0; }
static std::unique_ptr<std::vector<std::string>> mk_UniquePtr_CxxVector_CxxString(int k) { return k == 3 ? nullptr : std::unique_ptr<std::vector<std::string>>(new std::vector<std::string>(mk_CxxVector_CxxString(k))); }
static bool ck_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxVector_CxxString(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> const & v) { (void)v; return 0; }
static std::vector<CObj> mk_CxxVector_CObj(int k) { std::vector<CObj> v; for (int i = 0; i < k; i++) v.push_back(mk_CObj((k + i) & 3)); return v; }
static bool ck_CxxVector_CObj(std::vector<CObj> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_CObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_CObj(std::vector<CObj> const & v) { (void)v; return 0; }
static std::unique_ptr<std::vector<CObj>> mk_UniquePtr_CxxVector_CObj(int k) { return k == 3 ? nullptr : std::unique_ptr<std::vector<CObj>>(new std::vector<CObj>(mk_CxxVector_CObj(k))); }
static bool ck_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxVector_CObj(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> const & v) { (void)v; return 0; }
static std::vector<S7> mk_CxxVector_S7(int k) { std::vector<S7> v; for (int i = 0; i < k; i++) v.push_back(mk_S7((k + i) & 3)); return v; }
static bool ck_CxxVector_S7(std::vector<S7> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S7(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_S7(std::vector<S7> const & v) { (void)v; return 0; }
static std::unique_ptr<std::vector<S7>> mk_UniquePtr_CxxVector_S7(int k) { return k == 3 ? nullptr : std::unique_ptr<std::vector<S7>>(new std::vector<S7>(mk_CxxVector_S7(k))); }
static bool ck_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxVector_S7(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> const & v) { (void)v; return 0; }
static double mk_f64(int k) { std::uint64_t t[4] = {0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123}; double r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f64(double const & v, int k) { (void)k; return [&]{ auto w = mk_f64(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f64(double const & v) { (void)v; return 0; }
static std::vector<double> mk_CxxVector_f64(int k) { std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(mk_f64((k + i) & 3)); return v; }
static bool ck_CxxVector_f64(std::vector<double> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_f64(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_f64(std::vector<double> const & v) { (void)v; return 0; }
static std::unique_ptr<std::vector<double>> mk_UniquePtr_CxxVector_f64(int k) { return k == 3 ? nullptr : std::unique_ptr<std::vector<double>>(new std::vector<double>(mk_CxxVector_f64(k))); }
static bool ck_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxVector_f64(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> const & v) { (void)v; return 0; }
static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k) { return k == 3 ? nullptr : std::shared_ptr<CObj>(new CObj(k)); }
static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_CObj(*v, k); }
static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v) { (void)v; return 0; }
static std::shared_ptr<std::string> mk_SharedPtr_CxxString(int k) { return k == 3 ? nullptr : std::shared_ptr<std::string>(new std::string(mk_CxxString(k))); }
static bool ck_SharedPtr_CxxString(std::shared_ptr<std::string> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_CxxString(*v, k); }
static std::uintptr_t ad_SharedPtr_CxxString(std::shared_ptr<std::string> const & v) { (void)v; return 0; }
static std::uint32_t mk_u32(int k) { std::uint32_t t[4] = {0, 1, 2147483648ll, 4294967295ll}; return t[k]; }
static bool ck_u32(std::uint32_t const & v, int k) { (void)k; return v == mk_u32(k); }
static std::uintptr_t ad_u32(std::uint32_t const & v) { (void)v; return 0; }
static std::shared_ptr<std::uint32_t> mk_SharedPtr_u32(int k) { return k == 3 ? nullptr : std::shared_ptr<std::uint32_t>(new std::uint32_t(mk_u32(k))); }
static bool ck_SharedPtr_u32(std::shared_ptr<std::uint32_t> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_u32(*v, k); }
static std::uintptr_t ad_SharedPtr_u32(std::shared_ptr<std::uint32_t> const & v) { (void)v; return 0; }
static std::shared_ptr<bool> mk_SharedPtr_bool(int k) { return k == 3 ? nullptr : std::shared_ptr<bool>(new bool(mk_bool(k))); }
static bool ck_SharedPtr_bool(std::shared_ptr<bool> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_bool(*v, k); }
static std::uintptr_t ad_SharedPtr_bool(std::shared_ptr<bool> const & v) { (void)v; return 0; }
static std::shared_ptr<double> mk_SharedPtr_f64(int k) { return k == 3 ? nullptr : std::shared_ptr<double>(new double(mk_f64(k))); }
static bool ck_SharedPtr_f64(std::shared_ptr<double> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_f64(*v, k); }
static std::uintptr_t ad_SharedPtr_f64(std::shared_ptr<double> const & v) { (void)v; return 0; }
static std::shared_ptr<S7> mk_SharedPtr_S7(int k) { return k == 3 ? nullptr : std::shared_ptr<S7>(new S7(mk_S7(k))); }
static bool ck_SharedPtr_S7(std::shared_ptr<S7> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_S7(*v, k); }
static std::uintptr_t ad_SharedPtr_S7(std::shared_ptr<S7> const & v) { (void)v; return 0; }
static std::shared_ptr<TrivA> mk_SharedPtr_TrivA(int k) { return k == 3 ? nullptr : std::shared_ptr<TrivA>(new TrivA(mk_TrivA(k))); }
static bool ck_SharedPtr_TrivA(std::shared_ptr<TrivA> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_TrivA(*v, k); }
static std::uintptr_t ad_SharedPtr_TrivA(std::shared_ptr<TrivA> const & v) { (void)v; return 0; }
static std::weak_ptr<CObj> mk_WeakPtr_CObj(int k) { static std::shared_ptr<CObj> s[4]; s[k] = mk_SharedPtr_CObj(k); return s[k]; }
static bool ck_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k) { (void)k; return [&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_CObj(*s, k); }(); }
static std::uintptr_t ad_WeakPtr_CObj(std::weak_ptr<CObj> const & v) { (void)v; return 0; }
static std::weak_ptr<std::string> mk_WeakPtr_CxxString(int k) { static std::shared_ptr<std::string> s[4]; s[k] = mk_SharedPtr_CxxString(k); return s[k]; }
static bool ck_WeakPtr_CxxString(std::weak_ptr<std::string> const & v, int k) { (void)k; return [&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_CxxString(*s, k); }(); }
static std::uintptr_t ad_WeakPtr_CxxString(std::weak_ptr<std::string> const & v) { (void)v; return 0; }
static std::shared_ptr<std::int64_t> mk_SharedPtr_i64(int k) { return k == 3 ? nullptr : std::shared_ptr<std::int64_t>(new std::int64_t(mk_i64(k))); }
static bool ck_SharedPtr_i64(std::shared_ptr<std::int64_t> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_i64(*v, k); }
static std::uintptr_t ad_SharedPtr_i64(std::shared_ptr<std::int64_t> const & v) { (void)v; return 0; }
static std::weak_ptr<std::int64_t> mk_WeakPtr_i64(int k) { static std::shared_ptr<std::int64_t> s[4]; s[k] = mk_SharedPtr_i64(k); return s[k]; }
static bool ck_WeakPtr_i64(std::weak_ptr<std::int64_t> const & v, int k) { (void)k; return [&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_i64(*s, k); }(); }
static std::uintptr_t ad_WeakPtr_i64(std::weak_ptr<std::int64_t> const & v) { (void)v; return 0; }
static std::shared_ptr<S2> mk_SharedPtr_S2(int k) { return k == 3 ? nullptr : std::shared_ptr<S2>(new S2(mk_S2(k))); }
static bool ck_SharedPtr_S2(std::shared_ptr<S2> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_S2(*v, k); }
static std::uintptr_t ad_SharedPtr_S2(std::shared_ptr<S2> const & v) { (void)v; return 0; }
static std::weak_ptr<S2> mk_WeakPtr_S2(int k) { static std::shared_ptr<S2> s[4]; s[k] = mk_SharedPtr_S2(k); return s[k]; }
static bool ck_WeakPtr_S2(std::weak_ptr<S2> const & v, int k) { (void)k; return [&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_S2(*s, k); }(); }
static std::uintptr_t ad_WeakPtr_S2(std::weak_ptr<S2> const & v) { (void)v; return 0; }
static std::uint8_t const & mk_ref_u8(int k) { return cs_u8(k); }
static bool ck_ref_u8(std::uint8_t const & v, int k) { (void)k; return ck_u8(v, k); }
static std::uintptr_t ad_ref_u8(std::uint8_t const & v) { (void)v; return std::uintptr_t(&v); }
static std::uint64_t mk_u64(int k) { std::uint64_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_u64(std::uint64_t const & v, int k) { (void)k; return v == mk_u64(k); }
static std::uintptr_t ad_u64(std::uint64_t const & v) { (void)v; return 0; }
static std::uint64_t const & mk_ref_u64(int k) { return cs_u64(k); }
static bool ck_ref_u64(std::uint64_t const & v, int k) { (void)k; return ck_u64(v, k); }
static std::uintptr_t ad_ref_u64(std::uint64_t const & v) { (void)v; return std::uintptr_t(&v); }
static double const & mk_ref_f64(int k) { return cs_f64(k); }
static bool ck_ref_f64(double const & v, int k) { (void)k; return ck_f64(v, k); }
static std::uintptr_t ad_ref_f64(double const & v) { (void)v; return std::uintptr_t(&v); }
static bool const & mk_ref_bool(int k) { return cs_bool(k); }
static bool ck_ref_bool(bool const & v, int k) { (void)k; return ck_bool(v, k); }
static std::uintptr_t ad_ref_bool(bool const & v) { (void)v; return std::uintptr_t(&v); }
static rust::String const & mk_ref_String(int k) { return cs_String(k); }
static bool ck_ref_String(rust::String const & v, int k) { (void)k; return ck_String(v, k); }
static std::uintptr_t ad_ref_String(rust::String const & v) { (void)v; return std::uintptr_t(&v); }
static S2 const & mk_ref_S2(int k) { return cs_S2(k); }
static bool ck_ref_S2(S2 const & v, int k) { (void)k; return ck_S2(v, k); }
static std::uintptr_t ad_ref_S2(S2 const & v) { (void)v; return std::uintptr_t(&v); }
static S7 const & mk_ref_S7(int k) { return cs_S7(k); }
static bool ck_ref_S7(S7 const & v, int k) { (void)k; return ck_S7(v, k); }
static std::uintptr_t ad_ref_S7(S7 const & v) { (void)v; return std::uintptr_t(&v); }
static RObj const & mk_ref_RObj(int k) { return cs_RObj(k); }
static bool ck_ref_RObj(RObj const & v, int k) { (void)k; return ck_RObj(v, k); }
static std::uintptr_t ad_ref_RObj(RObj const & v) { (void)v; return std::uintptr_t(&v); }
static CObj const & mk_ref_CObj(int k) { return cs_CObj(k); }
static bool ck_ref_CObj(CObj const & v, int k) { (void)k; return ck_CObj(v, k); }
static std::uintptr_t ad_ref_CObj(CObj const & v) { (void)v; return std::uintptr_t(&v); }
static std::string const & mk_ref_CxxString(int k) { return cs_CxxString(k); }
static bool ck_ref_CxxString(std::string const & v, int k) { (void)k; return ck_CxxString(v, k); }
static std::uintptr_t ad_ref_CxxString(std::string const & v) { (void)v; return std::uintptr_t(&v); }
static std::vector<std::uint8_t> mk_CxxVector_u8(int k) { std::vector<std::uint8_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u8((k + i) & 3)); return v; }
static bool ck_CxxVector_u8(std::vector<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_u8(std::vector<std::uint8_t> const & v) { (void)v; return 0; }
static std::vector<std::uint8_t> const & mk_ref_CxxVector_u8(int k) { return cs_CxxVector_u8(k); }
static bool ck_ref_CxxVector_u8(std::vector<std::uint8_t> const & v, int k) { (void)k; return ck_CxxVector_u8(v, k); }
static std::uintptr_t ad_ref_CxxVector_u8(std::vector<std::uint8_t> const & v) { (void)v; return std::uintptr_t(&v); }
static std::vector<std::string> const & mk_ref_CxxVector_CxxString(int k) { return cs_CxxVector_CxxString(k); }
static bool ck_ref_CxxVector_CxxString(std::vector<std::string> const & v, int k) { (void)k; return ck_CxxVector_CxxString(v, k); }
static std::uintptr_t ad_ref_CxxVector_CxxString(std::vector<std::string> const & v) { (void)v; return std::uintptr_t(&v); }
static rust::Vec<std::uint8_t> const & mk_ref_Vec_u8(int k) { return cs_Vec_u8(k); }
static bool ck_ref_Vec_u8(rust::Vec<std::uint8_t> const & v, int k) { (void)k; return ck_Vec_u8(v, k); }
static std::uintptr_t ad_ref_Vec_u8(rust::Vec<std::uint8_t> const & v) { (void)v; return std::uintptr_t(&v); }
static rust::Vec<rust::String> const & mk_ref_Vec_String(int k) { return cs_Vec_String(k); }
static bool ck_ref_Vec_String(rust::Vec<rust::String> const & v, int k) { (void)k; return ck_Vec_String(v, k); }
static std::uintptr_t ad_ref_Vec_String(rust::Vec<rust::String> const & v) { (void)v; return std::uintptr_t(&v); }
static rust::Vec<RObj> const & mk_ref_Vec_RObj(int k) { return cs_Vec_RObj(k); }
static bool ck_ref_Vec_RObj(rust::Vec<RObj> const & v, int k) { (void)k; return ck_Vec_RObj(v, k); }
static std::uintptr_t ad_ref_Vec_RObj(rust::Vec<RObj> const & v) { (void)v; return std::uintptr_t(&v); }
static rust::Box<RObj> const & mk_ref_Box_RObj(int k) { return cs_Box_RObj(k); }
static bool ck_ref_Box_RObj(rust::Box<RObj> const & v, int k) { (void)k; return ck_Box_RObj(v, k); }
static std::uintptr_t ad_ref_Box_RObj(rust::Box<RObj> const & v) { (void)v; return std::uintptr_t(&v); }
static std::unique_ptr<CObj> const & mk_ref_UniquePtr_CObj(int k) { return cs_UniquePtr_CObj(k); }
static bool ck_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k) { (void)k; return ck_UniquePtr_CObj(v, k); }
static std::uintptr_t ad_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & v) { (void)v; return std::uintptr_t(&v); }
static std::shared_ptr<CObj> const & mk_ref_SharedPtr_CObj(int k) { return cs_SharedPtr_CObj(k); }
static bool ck_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k) { (void)k; return ck_SharedPtr_CObj(v, k); }
static std::uintptr_t ad_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & v) { (void)v; return std::uintptr_t(&v); }
static std::weak_ptr<CObj> const & mk_ref_WeakPtr_CObj(int k) { return cs_WeakPtr_CObj(k); }
static bool ck_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k) { (void)k; return ck_WeakPtr_CObj(v, k); }
static std::uintptr_t ad_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & v) { (void)v; return std::uintptr_t(&v); }
static Eu8 mk_Eu8(int k) { Eu8 t[4] = {Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3}; return t[k]; }
static bool ck_Eu8(Eu8 const & v, int k) { (void)k; return v == mk_Eu8(k); }
static std::uintptr_t ad_Eu8(Eu8 const & v) { (void)v; return 0; }
static Eu8 const & mk_ref_Eu8(int k) { return cs_Eu8(k); }
static bool ck_ref_Eu8(Eu8 const & v, int k) { (void)k; return ck_Eu8(v, k); }
static std::uintptr_t ad_ref_Eu8(Eu8 const & v) { (void)v; return std::uintptr_t(&v); }
static TrivA const & mk_ref_TrivA(int k) { return cs_TrivA(k); }
static bool ck_ref_TrivA(TrivA const & v, int k) { (void)k; return ck_TrivA(v, k); }
static std::uintptr_t ad_ref_TrivA(TrivA const & v) { (void)v; return std::uintptr_t(&v); }
static std::unique_ptr<std::uint8_t> ST_u8[4];
static std::uint8_t &cs_u8(int k) { ST_u8[k].reset(new std::uint8_t(mk_u8(k))); return *ST_u8[k]; }
static std::uint8_t &cp_u8(int k) { return *ST_u8[k]; }
static std::unique_ptr<std::uint64_t> ST_u64[4];
static std::uint64_t &cs_u64(int k) { ST_u64[k].reset(new std::uint64_t(mk_u64(k))); return *ST_u64[k]; }
static std::uint64_t &cp_u64(int k) { return *ST_u64[k]; }
static std::unique_ptr<double> ST_f64[4];
static double &cs_f64(int k) { ST_f64[k].reset(new double(mk_f64(k))); return *ST_f64[k]; }
static double &cp_f64(int k) { return *ST_f64[k]; }
static std::unique_ptr<bool> ST_bool[4];
static bool &cs_bool(int k) { ST_bool[k].reset(new bool(mk_bool(k))); return *ST_bool[k]; }
static bool &cp_bool(int k) { return *ST_bool[k]; }
static std::unique_ptr<rust::String> ST_String[4];
static rust::String &cs_String(int k) { ST_String[k].reset(new rust::String(mk_String(k))); return *ST_String[k]; }
static rust::String &cp_String(int k) { return *ST_String[k]; }
static std::unique_ptr<S2> ST_S2[4];
static S2 &cs_S2(int k) { ST_S2[k].reset(new S2(mk_S2(k))); return *ST_S2[k]; }
static S2 &cp_S2(int k) { return *ST_S2[k]; }
static std::unique_ptr<S7> ST_S7[4];
static S7 &cs_S7(int k) { ST_S7[k].reset(new S7(mk_S7(k))); return *ST_S7[k]; }
static S7 &cp_S7(int k) { return *ST_S7[k]; }
static std::unique_ptr<rust::Box<RObj>> ST_RObj[4];
static RObj &cs_RObj(int k) { ST_RObj[k].reset(new rust::Box<RObj>(r_new(k))); return **ST_RObj[k]; }
static RObj &cp_RObj(int k) { return **ST_RObj[k]; }
std::unique_ptr<CObj> c_store_CObj(std::int32_t k) { return std::unique_ptr<CObj>(new CObj(k)); }
static std::unique_ptr<CObj> ST_CObj[4];
static CObj &cs_CObj(int k) { ST_CObj[k].reset(new CObj(k)); return *ST_CObj[k]; }
static CObj &cp_CObj(int k) { return *ST_CObj[k]; }
std::unique_ptr<std::string> c_store_CxxString(std::int32_t k) { return std::unique_ptr<std::string>(new std::string(mk_CxxString(k))); }
static std::unique_ptr<std::string> ST_CxxString[4];
static std::string &cs_CxxString(int k) { ST_CxxString[k].reset(new std::string(mk_CxxString(k))); return *ST_CxxString[k]; }
static std::string &cp_CxxString(int k) { return *ST_CxxString[k]; }
std::unique_ptr<std::vector<std::uint8_t>> c_store_CxxVector_u8(std::int32_t k) { return std::unique_ptr<std::vector<std::uint8_t>>(new std::vector<std::uint8_t>(mk_CxxVector_u8(k))); }
static std::unique_ptr<std::vector<std::uint8_t>> ST_CxxVector_u8[4];
static std::vector<std::uint8_t> &cs_CxxVector_u8(int k) { ST_CxxVector_u8[k].reset(new std::vector<std::uint8_t>(mk_CxxVector_u8(k))); return *ST_CxxVector_u8[k]; }
static std::vector<std::uint8_t> &cp_CxxVector_u8(int k) { return *ST_CxxVector_u8[k]; }
std::unique_ptr<std::vector<std::string>> c_store_CxxVector_CxxString(std::int32_t k) { return std::unique_ptr<std::vector<std::string>>(new std::vector<std::string>(mk_CxxVector_CxxString(k))); }
static std::unique_ptr<std::vector<std::string>> ST_CxxVector_CxxString[4];
static std::vector<std::string> &cs_CxxVector_CxxString(int k) { ST_CxxVector_CxxString[k].reset(new std::vector<std::string>(mk_CxxVector_CxxString(k))); return *ST_CxxVector_CxxString[k]; }
static std::vector<std::string> &cp_CxxVector_CxxString(int k) { return *ST_CxxVector_CxxString[k]; }
static std::unique_ptr<rust::Vec<std::uint8_t>> ST_Vec_u8[4];
static rust::Vec<std::uint8_t> &cs_Vec_u8(int k) { ST_Vec_u8[k].reset(new rust::Vec<std::uint8_t>(mk_Vec_u8(k))); return *ST_Vec_u8[k]; }
static rust::Vec<std::uint8_t> &cp_Vec_u8(int k) { return *ST_Vec_u8[k]; }
static std::unique_ptr<rust::Vec<rust::String>> ST_Vec_String[4];
static rust::Vec<rust::String> &cs_Vec_String(int k) { ST_Vec_String[k].reset(new rust::Vec<rust::String>(mk_Vec_String(k))); return *ST_Vec_String[k]; }
static rust::Vec<rust::String> &cp_Vec_String(int k) { return *ST_Vec_String[k]; }
static std::unique_ptr<rust::Vec<RObj>> ST_Vec_RObj[4];
static rust::Vec<RObj> &cs_Vec_RObj(int k) { ST_Vec_RObj[k].reset(new rust::Vec<RObj>(mk_Vec_RObj(k))); return *ST_Vec_RObj[k]; }
static rust::Vec<RObj> &cp_Vec_RObj(int k) { return *ST_Vec_RObj[k]; }
static std::unique_ptr<rust::Box<RObj>> ST_Box_RObj[4];
static rust::Box<RObj> &cs_Box_RObj(int k) { ST_Box_RObj[k].reset(new rust::Box<RObj>(mk_Box_RObj(k))); return *ST_Box_RObj[k]; }
static rust::Box<RObj> &cp_Box_RObj(int k) { return *ST_Box_RObj[k]; }
static std::unique_ptr<std::unique_ptr<CObj>> ST_UniquePtr_CObj[4];
static std::unique_ptr<CObj> &cs_UniquePtr_CObj(int k) { ST_UniquePtr_CObj[k].reset(new std::unique_ptr<CObj>(mk_UniquePtr_CObj(k))); return *ST_UniquePtr_CObj[k]; }
static std::unique_ptr<CObj> &cp_UniquePtr_CObj(int k) { return *ST_UniquePtr_CObj[k]; }
static std::unique_ptr<std::shared_ptr<CObj>> ST_SharedPtr_CObj[4];
static std::shared_ptr<CObj> &cs_SharedPtr_CObj(int k) { ST_SharedPtr_CObj[k].reset(new std::shared_ptr<CObj>(mk_SharedPtr_CObj(k))); return *ST_SharedPtr_CObj[k]; }
static std::shared_ptr<CObj> &cp_SharedPtr_CObj(int k) { return *ST_SharedPtr_CObj[k]; }
static std::unique_ptr<std::weak_ptr<CObj>> ST_WeakPtr_CObj[4];
static std::weak_ptr<CObj> &cs_WeakPtr_CObj(int k) { ST_WeakPtr_CObj[k].reset(new std::weak_ptr<CObj>(mk_WeakPtr_CObj(k))); return *ST_WeakPtr_CObj[k]; }
static std::weak_ptr<CObj> &cp_WeakPtr_CObj(int k) { return *ST_WeakPtr_CObj[k]; }
static std::unique_ptr<Eu8> ST_Eu8[4];
static Eu8 &cs_Eu8(int k) { ST_Eu8[k].reset(new Eu8(mk_Eu8(k))); return *ST_Eu8[k]; }
static Eu8 &cp_Eu8(int k) { return *ST_Eu8[k]; }
static std::unique_ptr<TrivA> ST_TrivA[4];
static TrivA &cs_TrivA(int k) { ST_TrivA[k].reset(new TrivA(mk_TrivA(k))); return *ST_TrivA[k]; }
static TrivA &cp_TrivA(int k) { return *ST_TrivA[k]; }
bool c_take_Box_RObj(rust::Box<RObj> x, std::int32_t k) { note(ad_Box_RObj(x)); if (!ck_Box_RObj(x, k)) return false; return true; }
rust::Box<RObj> c_make_Box_RObj(std::int32_t k) { rust::Box<RObj> x = mk_Box_RObj(k); note(ad_Box_RObj(x)); return x; }
rust::Box<RObj> c_try_Box_RObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<RObj> x = mk_Box_RObj(k); note(ad_Box_RObj(x)); return x; }
rust::Box<RObj> c_echo_Box_RObj(rust::Box<RObj> x, std::int32_t k) { note(ck_Box_RObj(x, k) ? ad_Box_RObj(x) : 1); return std::move(x); }
bool c_mix_Box_RObj(std::uint8_t a, rust::Box<RObj> x, double b, std::int32_t k, rust::Box<RObj> y, std::uint16_t c) { return a == 200 && ck_Box_RObj(x, k) && b == -1.5 && ck_Box_RObj(y, (k + 1) & 3) && c == 60000; }
rust::Box<RObj> CObj::c_m_Box_RObj(rust::Box<RObj> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Box_RObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Box_RObj(rust::Fn<rust::Box<RObj>(rust::Box<RObj>, std::int32_t)> f, std::int32_t k) { rust::Box<RObj> y = f(mk_Box_RObj(k), k); return ck_Box_RObj(y, k); }
std::int32_t c_run_Box_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<RObj> x = mk_Box_RObj(k); auto a = ad_Box_RObj(x); if (!r_take_Box_RObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Box<RObj> x = r_make_Box_RObj(k); return ck_Box_RObj(x, k) && (vk_addr_c09b == ad_Box_RObj(x)) ? 0 : 13; }
 case 2: { rust::Box<RObj> x = r_try_Box_RObj(k, false); return ck_Box_RObj(x, k) && (vk_addr_c09b == ad_Box_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Box_RObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<RObj> x = mk_Box_RObj(k); auto a = ad_Box_RObj(x); rust::Box<RObj> y = r_echo_Box_RObj(std::move(x), k); return vk_addr_c09b == a && ad_Box_RObj(y) == a && ck_Box_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_Box_RObj(200, mk_Box_RObj(k), -1.5, k, mk_Box_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Box<RObj> x = mk_Box_RObj(k); rust::Box<RObj> y = o.r_m_Box_RObj(std::move(x), k); return vk_addr_c09b == 0 && ck_Box_RObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Box_S2(rust::Box<S2> x, std::int32_t k) { note(ad_Box_S2(x)); if (!ck_Box_S2(x, k)) return false; return true; }
rust::Box<S2> c_make_Box_S2(std::int32_t k) { rust::Box<S2> x = mk_Box_S2(k); note(ad_Box_S2(x)); return x; }
rust::Box<S2> c_try_Box_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<S2> x = mk_Box_S2(k); note(ad_Box_S2(x)); return x; }
rust::Box<S2> c_echo_Box_S2(rust::Box<S2> x, std::int32_t k) { note(ck_Box_S2(x, k) ? ad_Box_S2(x) : 1); return std::move(x); }
bool c_mix_Box_S2(std::uint8_t a, rust::Box<S2> x, double b, std::int32_t k, rust::Box<S2> y, std::uint16_t c) { return a == 200 && ck_Box_S2(x, k) && b == -1.5 && ck_Box_S2(y, (k + 1) & 3) && c == 60000; }
rust::Box<S2> CObj::c_m_Box_S2(rust::Box<S2> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_Box_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Box_S2(rust::Fn<rust::Box<S2>(rust::Box<S2>, std::int32_t)> f, std::int32_t k) { rust::Box<S2> y = f(mk_Box_S2(k), k); return ck_Box_S2(y, k); }
std::int32_t c_run_Box_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<S2> x = mk_Box_S2(k); auto a = ad_Box_S2(x); if (!r_take_Box_S2(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Box<S2> x = r_make_Box_S2(k); return ck_Box_S2(x, k) && (vk_addr_c09b == ad_Box_S2(x)) ? 0 : 13; }
 case 2: { rust::Box<S2> x = r_try_Box_S2(k, false); return ck_Box_S2(x, k) && (vk_addr_c09b == ad_Box_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Box_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<S2> x = mk_Box_S2(k); auto a = ad_Box_S2(x); rust::Box<S2> y = r_echo_Box_S2(std::move(x), k); return vk_addr_c09b == a && ad_Box_S2(y) == a && ck_Box_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_Box_S2(200, mk_Box_S2(k), -1.5, k, mk_Box_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Box<S2> x = mk_Box_S2(k); rust::Box<S2> y = o.r_m_Box_S2(std::move(x), k); return vk_addr_c09b == 0 && ck_Box_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Box_S7(rust::Box<S7> x, std::int32_t k) { note(ad_Box_S7(x)); if (!ck_Box_S7(x, k)) return false; return true; }
rust::Box<S7> c_make_Box_S7(std::int32_t k) { rust::Box<S7> x = mk_Box_S7(k); note(ad_Box_S7(x)); return x; }
rust::Box<S7> c_try_Box_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<S7> x = mk_Box_S7(k); note(ad_Box_S7(x)); return x; }
rust::Box<S7> c_echo_Box_S7(rust::Box<S7> x, std::int32_t k) { note(ck_Box_S7(x, k) ? ad_Box_S7(x) : 1); return std::move(x); }
bool c_mix_Box_S7(std::uint8_t a, rust::Box<S7> x, double b, std::int32_t k, rust::Box<S7> y, std::uint16_t c) { return a == 200 && ck_Box_S7(x, k) && b == -1.5 && ck_Box_S7(y, (k + 1) & 3) && c == 60000; }
rust::Box<S7> S3::c_m_Box_S7(rust::Box<S7> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Box_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Box_S7(rust::Fn<rust::Box<S7>(rust::Box<S7>, std::int32_t)> f, std::int32_t k) { rust::Box<S7> y = f(mk_Box_S7(k), k); return ck_Box_S7(y, k); }
std::int32_t c_run_Box_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<S7> x = mk_Box_S7(k); auto a = ad_Box_S7(x); if (!r_take_Box_S7(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Box<S7> x = r_make_Box_S7(k); return ck_Box_S7(x, k) && (vk_addr_c09b == ad_Box_S7(x)) ? 0 : 13; }
 case 2: { rust::Box<S7> x = r_try_Box_S7(k, false); return ck_Box_S7(x, k) && (vk_addr_c09b == ad_Box_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Box_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<S7> x = mk_Box_S7(k); auto a = ad_Box_S7(x); rust::Box<S7> y = r_echo_Box_S7(std::move(x), k); return vk_addr_c09b == a && ad_Box_S7(y) == a && ck_Box_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_Box_S7(200, mk_Box_S7(k), -1.5, k, mk_Box_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Box<S7> x = mk_Box_S7(k); rust::Box<S7> y = o.r_m_Box_S7(std::move(x), k); return vk_addr_c09b == 0 && ck_Box_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Box_TrivA(rust::Box<TrivA> x, std::int32_t k) { note(ad_Box_TrivA(x)); if (!ck_Box_TrivA(x, k)) return false; return true; }
rust::Box<TrivA> c_make_Box_TrivA(std::int32_t k) { rust::Box<TrivA> x = mk_Box_TrivA(k); note(ad_Box_TrivA(x)); return x; }
rust::Box<TrivA> c_try_Box_TrivA(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<TrivA> x = mk_Box_TrivA(k); note(ad_Box_TrivA(x)); return x; }
rust::Box<TrivA> c_echo_Box_TrivA(rust::Box<TrivA> x, std::int32_t k) { note(ck_Box_TrivA(x, k) ? ad_Box_TrivA(x) : 1); return std::move(x); }
bool c_mix_Box_TrivA(std::uint8_t a, rust::Box<TrivA> x, double b, std::int32_t k, rust::Box<TrivA> y, std::uint16_t c) { return a == 200 && ck_Box_TrivA(x, k) && b == -1.5 && ck_Box_TrivA(y, (k + 1) & 3) && c == 60000; }
rust::Box<TrivA> S3::c_m_Box_TrivA(rust::Box<TrivA> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Box_TrivA(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Box_TrivA(rust::Fn<rust::Box<TrivA>(rust::Box<TrivA>, std::int32_t)> f, std::int32_t k) { rust::Box<TrivA> y = f(mk_Box_TrivA(k), k); return ck_Box_TrivA(y, k); }
std::int32_t c_run_Box_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<TrivA> x = mk_Box_TrivA(k); auto a = ad_Box_TrivA(x); if (!r_take_Box_TrivA(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Box<TrivA> x = r_make_Box_TrivA(k); return ck_Box_TrivA(x, k) && (vk_addr_c09b == ad_Box_TrivA(x)) ? 0 : 13; }
 case 2: { rust::Box<TrivA> x = r_try_Box_TrivA(k, false); return ck_Box_TrivA(x, k) && (vk_addr_c09b == ad_Box_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Box_TrivA(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<TrivA> x = mk_Box_TrivA(k); auto a = ad_Box_TrivA(x); rust::Box<TrivA> y = r_echo_Box_TrivA(std::move(x), k); return vk_addr_c09b == a && ad_Box_TrivA(y) == a && ck_Box_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_Box_TrivA(200, mk_Box_TrivA(k), -1.5, k, mk_Box_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Box<TrivA> x = mk_Box_TrivA(k); rust::Box<TrivA> y = o.r_m_Box_TrivA(std::move(x), k); return vk_addr_c09b == 0 && ck_Box_TrivA(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k) { note(ad_Vec_u8(x)); if (!ck_Vec_u8(x, k)) return false; return true; }
rust::Vec<std::uint8_t> c_make_Vec_u8(std::int32_t k) { rust::Vec<std::uint8_t> x = mk_Vec_u8(k); note(ad_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> c_try_Vec_u8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<std::uint8_t> x = mk_Vec_u8(k); note(ad_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> c_echo_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k) { note(ck_Vec_u8(x, k) ? ad_Vec_u8(x) : 1); return std::move(x); }
bool c_mix_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> x, double b, std::int32_t k, rust::Vec<std::uint8_t> y, std::uint16_t c) { return a == 200 && ck_Vec_u8(x, k) && b == -1.5 && ck_Vec_u8(y, (k + 1) & 3) && c == 60000; }
rust::Vec<std::uint8_t> CObj::c_m_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Vec_u8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_u8(rust::Fn<rust::Vec<std::uint8_t>(rust::Vec<std::uint8_t>, std::int32_t)> f, std::int32_t k) { rust::Vec<std::uint8_t> y = f(mk_Vec_u8(k), k); return ck_Vec_u8(y, k); }
std::int32_t c_run_Vec_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<std::uint8_t> x = mk_Vec_u8(k); auto a = ad_Vec_u8(x); if (!r_take_Vec_u8(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<std::uint8_t> x = r_make_Vec_u8(k); return ck_Vec_u8(x, k) && (vk_addr_c09b == ad_Vec_u8(x)) ? 0 : 13; }
 case 2: { rust::Vec<std::uint8_t> x = r_try_Vec_u8(k, false); return ck_Vec_u8(x, k) && (vk_addr_c09b == ad_Vec_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_u8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<std::uint8_t> x = mk_Vec_u8(k); auto a = ad_Vec_u8(x); rust::Vec<std::uint8_t> y = r_echo_Vec_u8(std::move(x), k); return vk_addr_c09b == a && ad_Vec_u8(y) == a && ck_Vec_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_u8(200, mk_Vec_u8(k), -1.5, k, mk_Vec_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<std::uint8_t> x = mk_Vec_u8(k); rust::Vec<std::uint8_t> y = o.r_m_Vec_u8(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_u8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k) { note(ad_Vec_i64(x)); if (!ck_Vec_i64(x, k)) return false; return true; }
rust::Vec<std::int64_t> c_make_Vec_i64(std::int32_t k) { rust::Vec<std::int64_t> x = mk_Vec_i64(k); note(ad_Vec_i64(x)); return x; }
rust::Vec<std::int64_t> c_try_Vec_i64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<std::int64_t> x = mk_Vec_i64(k); note(ad_Vec_i64(x)); return x; }
rust::Vec<std::int64_t> c_echo_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k) { note(ck_Vec_i64(x, k) ? ad_Vec_i64(x) : 1); return std::move(x); }
bool c_mix_Vec_i64(std::uint8_t a, rust::Vec<std::int64_t> x, double b, std::int32_t k, rust::Vec<std::int64_t> y, std::uint16_t c) { return a == 200 && ck_Vec_i64(x, k) && b == -1.5 && ck_Vec_i64(y, (k + 1) & 3) && c == 60000; }
rust::Vec<std::int64_t> CObj::c_m_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_Vec_i64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_i64(rust::Fn<rust::Vec<std::int64_t>(rust::Vec<std::int64_t>, std::int32_t)> f, std::int32_t k) { rust::Vec<std::int64_t> y = f(mk_Vec_i64(k), k); return ck_Vec_i64(y, k); }
std::int32_t c_run_Vec_i64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<std::int64_t> x = mk_Vec_i64(k); auto a = ad_Vec_i64(x); if (!r_take_Vec_i64(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<std::int64_t> x = r_make_Vec_i64(k); return ck_Vec_i64(x, k) && (vk_addr_c09b == ad_Vec_i64(x)) ? 0 : 13; }
 case 2: { rust::Vec<std::int64_t> x = r_try_Vec_i64(k, false); return ck_Vec_i64(x, k) && (vk_addr_c09b == ad_Vec_i64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_i64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<std::int64_t> x = mk_Vec_i64(k); auto a = ad_Vec_i64(x); rust::Vec<std::int64_t> y = r_echo_Vec_i64(std::move(x), k); return vk_addr_c09b == a && ad_Vec_i64(y) == a && ck_Vec_i64(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_i64(200, mk_Vec_i64(k), -1.5, k, mk_Vec_i64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<std::int64_t> x = mk_Vec_i64(k); rust::Vec<std::int64_t> y = o.r_m_Vec_i64(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_i64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_bool(rust::Vec<bool> x, std::int32_t k) { note(ad_Vec_bool(x)); if (!ck_Vec_bool(x, k)) return false; return true; }
rust::Vec<bool> c_make_Vec_bool(std::int32_t k) { rust::Vec<bool> x = mk_Vec_bool(k); note(ad_Vec_bool(x)); return x; }
rust::Vec<bool> c_try_Vec_bool(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<bool> x = mk_Vec_bool(k); note(ad_Vec_bool(x)); return x; }
rust::Vec<bool> c_echo_Vec_bool(rust::Vec<bool> x, std::int32_t k) { note(ck_Vec_bool(x, k) ? ad_Vec_bool(x) : 1); return std::move(x); }
bool c_mix_Vec_bool(std::uint8_t a, rust::Vec<bool> x, double b, std::int32_t k, rust::Vec<bool> y, std::uint16_t c) { return a == 200 && ck_Vec_bool(x, k) && b == -1.5 && ck_Vec_bool(y, (k + 1) & 3) && c == 60000; }
rust::Vec<bool> S3::c_m_Vec_bool(rust::Vec<bool> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Vec_bool(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_bool(rust::Fn<rust::Vec<bool>(rust::Vec<bool>, std::int32_t)> f, std::int32_t k) { rust::Vec<bool> y = f(mk_Vec_bool(k), k); return ck_Vec_bool(y, k); }
std::int32_t c_run_Vec_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<bool> x = mk_Vec_bool(k); auto a = ad_Vec_bool(x); if (!r_take_Vec_bool(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<bool> x = r_make_Vec_bool(k); return ck_Vec_bool(x, k) && (vk_addr_c09b == ad_Vec_bool(x)) ? 0 : 13; }
 case 2: { rust::Vec<bool> x = r_try_Vec_bool(k, false); return ck_Vec_bool(x, k) && (vk_addr_c09b == ad_Vec_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_bool(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<bool> x = mk_Vec_bool(k); auto a = ad_Vec_bool(x); rust::Vec<bool> y = r_echo_Vec_bool(std::move(x), k); return vk_addr_c09b == a && ad_Vec_bool(y) == a && ck_Vec_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_bool(200, mk_Vec_bool(k), -1.5, k, mk_Vec_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<bool> x = mk_Vec_bool(k); rust::Vec<bool> y = o.r_m_Vec_bool(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_bool(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_f32(rust::Vec<float> x, std::int32_t k) { note(ad_Vec_f32(x)); if (!ck_Vec_f32(x, k)) return false; return true; }
rust::Vec<float> c_make_Vec_f32(std::int32_t k) { rust::Vec<float> x = mk_Vec_f32(k); note(ad_Vec_f32(x)); return x; }
rust::Vec<float> c_try_Vec_f32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<float> x = mk_Vec_f32(k); note(ad_Vec_f32(x)); return x; }
rust::Vec<float> c_echo_Vec_f32(rust::Vec<float> x, std::int32_t k) { note(ck_Vec_f32(x, k) ? ad_Vec_f32(x) : 1); return std::move(x); }
bool c_mix_Vec_f32(std::uint8_t a, rust::Vec<float> x, double b, std::int32_t k, rust::Vec<float> y, std::uint16_t c) { return a == 200 && ck_Vec_f32(x, k) && b == -1.5 && ck_Vec_f32(y, (k + 1) & 3) && c == 60000; }
rust::Vec<float> S3::c_m_Vec_f32(rust::Vec<float> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Vec_f32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_f32(rust::Fn<rust::Vec<float>(rust::Vec<float>, std::int32_t)> f, std::int32_t k) { rust::Vec<float> y = f(mk_Vec_f32(k), k); return ck_Vec_f32(y, k); }
std::int32_t c_run_Vec_f32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<float> x = mk_Vec_f32(k); auto a = ad_Vec_f32(x); if (!r_take_Vec_f32(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<float> x = r_make_Vec_f32(k); return ck_Vec_f32(x, k) && (vk_addr_c09b == ad_Vec_f32(x)) ? 0 : 13; }
 case 2: { rust::Vec<float> x = r_try_Vec_f32(k, false); return ck_Vec_f32(x, k) && (vk_addr_c09b == ad_Vec_f32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_f32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<float> x = mk_Vec_f32(k); auto a = ad_Vec_f32(x); rust::Vec<float> y = r_echo_Vec_f32(std::move(x), k); return vk_addr_c09b == a && ad_Vec_f32(y) == a && ck_Vec_f32(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_f32(200, mk_Vec_f32(k), -1.5, k, mk_Vec_f32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<float> x = mk_Vec_f32(k); rust::Vec<float> y = o.r_m_Vec_f32(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_f32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k) { note(ad_Vec_usize(x)); if (!ck_Vec_usize(x, k)) return false; return true; }
rust::Vec<std::size_t> c_make_Vec_usize(std::int32_t k) { rust::Vec<std::size_t> x = mk_Vec_usize(k); note(ad_Vec_usize(x)); return x; }
rust::Vec<std::size_t> c_try_Vec_usize(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<std::size_t> x = mk_Vec_usize(k); note(ad_Vec_usize(x)); return x; }
rust::Vec<std::size_t> c_echo_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k) { note(ck_Vec_usize(x, k) ? ad_Vec_usize(x) : 1); return std::move(x); }
bool c_mix_Vec_usize(std::uint8_t a, rust::Vec<std::size_t> x, double b, std::int32_t k, rust::Vec<std::size_t> y, std::uint16_t c) { return a == 200 && ck_Vec_usize(x, k) && b == -1.5 && ck_Vec_usize(y, (k + 1) & 3) && c == 60000; }
rust::Vec<std::size_t> CObj::c_m_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Vec_usize(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_usize(rust::Fn<rust::Vec<std::size_t>(rust::Vec<std::size_t>, std::int32_t)> f, std::int32_t k) { rust::Vec<std::size_t> y = f(mk_Vec_usize(k), k); return ck_Vec_usize(y, k); }
std::int32_t c_run_Vec_usize(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<std::size_t> x = mk_Vec_usize(k); auto a = ad_Vec_usize(x); if (!r_take_Vec_usize(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<std::size_t> x = r_make_Vec_usize(k); return ck_Vec_usize(x, k) && (vk_addr_c09b == ad_Vec_usize(x)) ? 0 : 13; }
 case 2: { rust::Vec<std::size_t> x = r_try_Vec_usize(k, false); return ck_Vec_usize(x, k) && (vk_addr_c09b == ad_Vec_usize(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_usize(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<std::size_t> x = mk_Vec_usize(k); auto a = ad_Vec_usize(x); rust::Vec<std::size_t> y = r_echo_Vec_usize(std::move(x), k); return vk_addr_c09b == a && ad_Vec_usize(y) == a && ck_Vec_usize(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_usize(200, mk_Vec_usize(k), -1.5, k, mk_Vec_usize((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<std::size_t> x = mk_Vec_usize(k); rust::Vec<std::size_t> y = o.r_m_Vec_usize(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_usize(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_c_char(rust::Vec<char> x, std::int32_t k) { note(ad_Vec_c_char(x)); if (!ck_Vec_c_char(x, k)) return false; return true; }
rust::Vec<char> c_make_Vec_c_char(std::int32_t k) { rust::Vec<char> x = mk_Vec_c_char(k); note(ad_Vec_c_char(x)); return x; }
rust::Vec<char> c_try_Vec_c_char(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<char> x = mk_Vec_c_char(k); note(ad_Vec_c_char(x)); return x; }
rust::Vec<char> c_echo_Vec_c_char(rust::Vec<char> x, std::int32_t k) { note(ck_Vec_c_char(x, k) ? ad_Vec_c_char(x) : 1); return std::move(x); }
bool c_mix_Vec_c_char(std::uint8_t a, rust::Vec<char> x, double b, std::int32_t k, rust::Vec<char> y, std::uint16_t c) { return a == 200 && ck_Vec_c_char(x, k) && b == -1.5 && ck_Vec_c_char(y, (k + 1) & 3) && c == 60000; }
rust::Vec<char> CObj::c_m_Vec_c_char(rust::Vec<char> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_Vec_c_char(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_c_char(rust::Fn<rust::Vec<char>(rust::Vec<char>, std::int32_t)> f, std::int32_t k) { rust::Vec<char> y = f(mk_Vec_c_char(k), k); return ck_Vec_c_char(y, k); }
std::int32_t c_run_Vec_c_char(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<char> x = mk_Vec_c_char(k); auto a = ad_Vec_c_char(x); if (!r_take_Vec_c_char(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<char> x = r_make_Vec_c_char(k); return ck_Vec_c_char(x, k) && (vk_addr_c09b == ad_Vec_c_char(x)) ? 0 : 13; }
 case 2: { rust::Vec<char> x = r_try_Vec_c_char(k, false); return ck_Vec_c_char(x, k) && (vk_addr_c09b == ad_Vec_c_char(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_c_char(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<char> x = mk_Vec_c_char(k); auto a = ad_Vec_c_char(x); rust::Vec<char> y = r_echo_Vec_c_char(std::move(x), k); return vk_addr_c09b == a && ad_Vec_c_char(y) == a && ck_Vec_c_char(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_c_char(200, mk_Vec_c_char(k), -1.5, k, mk_Vec_c_char((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<char> x = mk_Vec_c_char(k); rust::Vec<char> y = o.r_m_Vec_c_char(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_c_char(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_String(rust::Vec<rust::String> x, std::int32_t k) { note(ad_Vec_String(x)); if (!ck_Vec_String(x, k)) return false; return true; }
rust::Vec<rust::String> c_make_Vec_String(std::int32_t k) { rust::Vec<rust::String> x = mk_Vec_String(k); note(ad_Vec_String(x)); return x; }
rust::Vec<rust::String> c_try_Vec_String(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<rust::String> x = mk_Vec_String(k); note(ad_Vec_String(x)); return x; }
rust::Vec<rust::String> c_echo_Vec_String(rust::Vec<rust::String> x, std::int32_t k) { note(ck_Vec_String(x, k) ? ad_Vec_String(x) : 1); return std::move(x); }
bool c_mix_Vec_String(std::uint8_t a, rust::Vec<rust::String> x, double b, std::int32_t k, rust::Vec<rust::String> y, std::uint16_t c) { return a == 200 && ck_Vec_String(x, k) && b == -1.5 && ck_Vec_String(y, (k + 1) & 3) && c == 60000; }
rust::Vec<rust::String> S3::c_m_Vec_String(rust::Vec<rust::String> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Vec_String(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_String(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>, std::int32_t)> f, std::int32_t k) { rust::Vec<rust::String> y = f(mk_Vec_String(k), k); return ck_Vec_String(y, k); }
std::int32_t c_run_Vec_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<rust::String> x = mk_Vec_String(k); auto a = ad_Vec_String(x); if (!r_take_Vec_String(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<rust::String> x = r_make_Vec_String(k); return ck_Vec_String(x, k) && (vk_addr_c09b == ad_Vec_String(x)) ? 0 : 13; }
 case 2: { rust::Vec<rust::String> x = r_try_Vec_String(k, false); return ck_Vec_String(x, k) && (vk_addr_c09b == ad_Vec_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_String(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<rust::String> x = mk_Vec_String(k); auto a = ad_Vec_String(x); rust::Vec<rust::String> y = r_echo_Vec_String(std::move(x), k); return vk_addr_c09b == a && ad_Vec_String(y) == a && ck_Vec_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_String(200, mk_Vec_String(k), -1.5, k, mk_Vec_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<rust::String> x = mk_Vec_String(k); rust::Vec<rust::String> y = o.r_m_Vec_String(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_String(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_S2(rust::Vec<S2> x, std::int32_t k) { note(ad_Vec_S2(x)); if (!ck_Vec_S2(x, k)) return false; return true; }
rust::Vec<S2> c_make_Vec_S2(std::int32_t k) { rust::Vec<S2> x = mk_Vec_S2(k); note(ad_Vec_S2(x)); return x; }
rust::Vec<S2> c_try_Vec_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<S2> x = mk_Vec_S2(k); note(ad_Vec_S2(x)); return x; }
rust::Vec<S2> c_echo_Vec_S2(rust::Vec<S2> x, std::int32_t k) { note(ck_Vec_S2(x, k) ? ad_Vec_S2(x) : 1); return std::move(x); }
bool c_mix_Vec_S2(std::uint8_t a, rust::Vec<S2> x, double b, std::int32_t k, rust::Vec<S2> y, std::uint16_t c) { return a == 200 && ck_Vec_S2(x, k) && b == -1.5 && ck_Vec_S2(y, (k + 1) & 3) && c == 60000; }
rust::Vec<S2> S3::c_m_Vec_S2(rust::Vec<S2> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Vec_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_S2(rust::Fn<rust::Vec<S2>(rust::Vec<S2>, std::int32_t)> f, std::int32_t k) { rust::Vec<S2> y = f(mk_Vec_S2(k), k); return ck_Vec_S2(y, k); }
std::int32_t c_run_Vec_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<S2> x = mk_Vec_S2(k); auto a = ad_Vec_S2(x); if (!r_take_Vec_S2(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<S2> x = r_make_Vec_S2(k); return ck_Vec_S2(x, k) && (vk_addr_c09b == ad_Vec_S2(x)) ? 0 : 13; }
 case 2: { rust::Vec<S2> x = r_try_Vec_S2(k, false); return ck_Vec_S2(x, k) && (vk_addr_c09b == ad_Vec_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<S2> x = mk_Vec_S2(k); auto a = ad_Vec_S2(x); rust::Vec<S2> y = r_echo_Vec_S2(std::move(x), k); return vk_addr_c09b == a && ad_Vec_S2(y) == a && ck_Vec_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_S2(200, mk_Vec_S2(k), -1.5, k, mk_Vec_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<S2> x = mk_Vec_S2(k); rust::Vec<S2> y = o.r_m_Vec_S2(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_S7(rust::Vec<S7> x, std::int32_t k) { note(ad_Vec_S7(x)); if (!ck_Vec_S7(x, k)) return false; return true; }
rust::Vec<S7> c_make_Vec_S7(std::int32_t k) { rust::Vec<S7> x = mk_Vec_S7(k); note(ad_Vec_S7(x)); return x; }
rust::Vec<S7> c_try_Vec_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<S7> x = mk_Vec_S7(k); note(ad_Vec_S7(x)); return x; }
rust::Vec<S7> c_echo_Vec_S7(rust::Vec<S7> x, std::int32_t k) { note(ck_Vec_S7(x, k) ? ad_Vec_S7(x) : 1); return std::move(x); }
bool c_mix_Vec_S7(std::uint8_t a, rust::Vec<S7> x, double b, std::int32_t k, rust::Vec<S7> y, std::uint16_t c) { return a == 200 && ck_Vec_S7(x, k) && b == -1.5 && ck_Vec_S7(y, (k + 1) & 3) && c == 60000; }
rust::Vec<S7> CObj::c_m_Vec_S7(rust::Vec<S7> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Vec_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_S7(rust::Fn<rust::Vec<S7>(rust::Vec<S7>, std::int32_t)> f, std::int32_t k) { rust::Vec<S7> y = f(mk_Vec_S7(k), k); return ck_Vec_S7(y, k); }
std::int32_t c_run_Vec_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<S7> x = mk_Vec_S7(k); auto a = ad_Vec_S7(x); if (!r_take_Vec_S7(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<S7> x = r_make_Vec_S7(k); return ck_Vec_S7(x, k) && (vk_addr_c09b == ad_Vec_S7(x)) ? 0 : 13; }
 case 2: { rust::Vec<S7> x = r_try_Vec_S7(k, false); return ck_Vec_S7(x, k) && (vk_addr_c09b == ad_Vec_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<S7> x = mk_Vec_S7(k); auto a = ad_Vec_S7(x); rust::Vec<S7> y = r_echo_Vec_S7(std::move(x), k); return vk_addr_c09b == a && ad_Vec_S7(y) == a && ck_Vec_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_S7(200, mk_Vec_S7(k), -1.5, k, mk_Vec_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<S7> x = mk_Vec_S7(k); rust::Vec<S7> y = o.r_m_Vec_S7(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_RObj(rust::Vec<RObj> x, std::int32_t k) { note(ad_Vec_RObj(x)); if (!ck_Vec_RObj(x, k)) return false; return true; }
rust::Vec<RObj> c_make_Vec_RObj(std::int32_t k) { rust::Vec<RObj> x = mk_Vec_RObj(k); note(ad_Vec_RObj(x)); return x; }
rust::Vec<RObj> c_try_Vec_RObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<RObj> x = mk_Vec_RObj(k); note(ad_Vec_RObj(x)); return x; }
rust::Vec<RObj> c_echo_Vec_RObj(rust::Vec<RObj> x, std::int32_t k) { note(ck_Vec_RObj(x, k) ? ad_Vec_RObj(x) : 1); return std::move(x); }
bool c_mix_Vec_RObj(std::uint8_t a, rust::Vec<RObj> x, double b, std::int32_t k, rust::Vec<RObj> y, std::uint16_t c) { return a == 200 && ck_Vec_RObj(x, k) && b == -1.5 && ck_Vec_RObj(y, (k + 1) & 3) && c == 60000; }
rust::Vec<RObj> CObj::c_m_Vec_RObj(rust::Vec<RObj> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_Vec_RObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_RObj(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>, std::int32_t)> f, std::int32_t k) { rust::Vec<RObj> y = f(mk_Vec_RObj(k), k); return ck_Vec_RObj(y, k); }
std::int32_t c_run_Vec_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<RObj> x = mk_Vec_RObj(k); auto a = ad_Vec_RObj(x); if (!r_take_Vec_RObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<RObj> x = r_make_Vec_RObj(k); return ck_Vec_RObj(x, k) && (vk_addr_c09b == ad_Vec_RObj(x)) ? 0 : 13; }
 case 2: { rust::Vec<RObj> x = r_try_Vec_RObj(k, false); return ck_Vec_RObj(x, k) && (vk_addr_c09b == ad_Vec_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_RObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<RObj> x = mk_Vec_RObj(k); auto a = ad_Vec_RObj(x); rust::Vec<RObj> y = r_echo_Vec_RObj(std::move(x), k); return vk_addr_c09b == a && ad_Vec_RObj(y) == a && ck_Vec_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_RObj(200, mk_Vec_RObj(k), -1.5, k, mk_Vec_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<RObj> x = mk_Vec_RObj(k); rust::Vec<RObj> y = o.r_m_Vec_RObj(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_RObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_Ei8(rust::Vec<Ei8> x, std::int32_t k) { note(ad_Vec_Ei8(x)); if (!ck_Vec_Ei8(x, k)) return false; return true; }
rust::Vec<Ei8> c_make_Vec_Ei8(std::int32_t k) { rust::Vec<Ei8> x = mk_Vec_Ei8(k); note(ad_Vec_Ei8(x)); return x; }
rust::Vec<Ei8> c_try_Vec_Ei8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<Ei8> x = mk_Vec_Ei8(k); note(ad_Vec_Ei8(x)); return x; }
rust::Vec<Ei8> c_echo_Vec_Ei8(rust::Vec<Ei8> x, std::int32_t k) { note(ck_Vec_Ei8(x, k) ? ad_Vec_Ei8(x) : 1); return std::move(x); }
bool c_mix_Vec_Ei8(std::uint8_t a, rust::Vec<Ei8> x, double b, std::int32_t k, rust::Vec<Ei8> y, std::uint16_t c) { return a == 200 && ck_Vec_Ei8(x, k) && b == -1.5 && ck_Vec_Ei8(y, (k + 1) & 3) && c == 60000; }
rust::Vec<Ei8> S3::c_m_Vec_Ei8(rust::Vec<Ei8> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Vec_Ei8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_Ei8(rust::Fn<rust::Vec<Ei8>(rust::Vec<Ei8>, std::int32_t)> f, std::int32_t k) { rust::Vec<Ei8> y = f(mk_Vec_Ei8(k), k); return ck_Vec_Ei8(y, k); }
std::int32_t c_run_Vec_Ei8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<Ei8> x = mk_Vec_Ei8(k); auto a = ad_Vec_Ei8(x); if (!r_take_Vec_Ei8(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<Ei8> x = r_make_Vec_Ei8(k); return ck_Vec_Ei8(x, k) && (vk_addr_c09b == ad_Vec_Ei8(x)) ? 0 : 13; }
 case 2: { rust::Vec<Ei8> x = r_try_Vec_Ei8(k, false); return ck_Vec_Ei8(x, k) && (vk_addr_c09b == ad_Vec_Ei8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_Ei8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<Ei8> x = mk_Vec_Ei8(k); auto a = ad_Vec_Ei8(x); rust::Vec<Ei8> y = r_echo_Vec_Ei8(std::move(x), k); return vk_addr_c09b == a && ad_Vec_Ei8(y) == a && ck_Vec_Ei8(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_Ei8(200, mk_Vec_Ei8(k), -1.5, k, mk_Vec_Ei8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<Ei8> x = mk_Vec_Ei8(k); rust::Vec<Ei8> y = o.r_m_Vec_Ei8(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_Ei8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Vec_TrivA(rust::Vec<TrivA> x, std::int32_t k) { note(ad_Vec_TrivA(x)); if (!ck_Vec_TrivA(x, k)) return false; return true; }
rust::Vec<TrivA> c_make_Vec_TrivA(std::int32_t k) { rust::Vec<TrivA> x = mk_Vec_TrivA(k); note(ad_Vec_TrivA(x)); return x; }
rust::Vec<TrivA> c_try_Vec_TrivA(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<TrivA> x = mk_Vec_TrivA(k); note(ad_Vec_TrivA(x)); return x; }
rust::Vec<TrivA> c_echo_Vec_TrivA(rust::Vec<TrivA> x, std::int32_t k) { note(ck_Vec_TrivA(x, k) ? ad_Vec_TrivA(x) : 1); return std::move(x); }
bool c_mix_Vec_TrivA(std::uint8_t a, rust::Vec<TrivA> x, double b, std::int32_t k, rust::Vec<TrivA> y, std::uint16_t c) { return a == 200 && ck_Vec_TrivA(x, k) && b == -1.5 && ck_Vec_TrivA(y, (k + 1) & 3) && c == 60000; }
rust::Vec<TrivA> S3::c_m_Vec_TrivA(rust::Vec<TrivA> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Vec_TrivA(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Vec_TrivA(rust::Fn<rust::Vec<TrivA>(rust::Vec<TrivA>, std::int32_t)> f, std::int32_t k) { rust::Vec<TrivA> y = f(mk_Vec_TrivA(k), k); return ck_Vec_TrivA(y, k); }
std::int32_t c_run_Vec_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<TrivA> x = mk_Vec_TrivA(k); auto a = ad_Vec_TrivA(x); if (!r_take_Vec_TrivA(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<TrivA> x = r_make_Vec_TrivA(k); return ck_Vec_TrivA(x, k) && (vk_addr_c09b == ad_Vec_TrivA(x)) ? 0 : 13; }
 case 2: { rust::Vec<TrivA> x = r_try_Vec_TrivA(k, false); return ck_Vec_TrivA(x, k) && (vk_addr_c09b == ad_Vec_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Vec_TrivA(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<TrivA> x = mk_Vec_TrivA(k); auto a = ad_Vec_TrivA(x); rust::Vec<TrivA> y = r_echo_Vec_TrivA(std::move(x), k); return vk_addr_c09b == a && ad_Vec_TrivA(y) == a && ck_Vec_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_Vec_TrivA(200, mk_Vec_TrivA(k), -1.5, k, mk_Vec_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<TrivA> x = mk_Vec_TrivA(k); rust::Vec<TrivA> y = o.r_m_Vec_TrivA(std::move(x), k); return vk_addr_c09b == 0 && ck_Vec_TrivA(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ad_UniquePtr_CObj(x)); if (!ck_UniquePtr_CObj(x, k)) return false; return true; }
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k) { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ck_UniquePtr_CObj(x, k) ? ad_UniquePtr_CObj(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CObj(x, k) && b == -1.5 && ck_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<CObj> CObj::c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_UniquePtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> y = f(mk_UniquePtr_CObj(k), k); return ck_UniquePtr_CObj(y, k); }
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); if (!r_take_UniquePtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<CObj> x = r_make_UniquePtr_CObj(k); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09b == ad_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> x = r_try_UniquePtr_CObj(k, false); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09b == ad_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); std::unique_ptr<CObj> y = r_echo_UniquePtr_CObj(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CObj(y) == a && ck_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); std::unique_ptr<CObj> y = o.r_m_UniquePtr_CObj(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) { note(ad_UniquePtr_CxxString(x)); if (!ck_UniquePtr_CxxString(x, k)) return false; return true; }
std::unique_ptr<std::string> c_make_UniquePtr_CxxString(std::int32_t k) { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(x)); return x; }
std::unique_ptr<std::string> c_try_UniquePtr_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(x)); return x; }
std::unique_ptr<std::string> c_echo_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) { note(ck_UniquePtr_CxxString(x, k) ? ad_UniquePtr_CxxString(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxString(std::uint8_t a, std::unique_ptr<std::string> x, double b, std::int32_t k, std::unique_ptr<std::string> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxString(x, k) && b == -1.5 && ck_UniquePtr_CxxString(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::string> CObj::c_m_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_UniquePtr_CxxString(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxString(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::string> y = f(mk_UniquePtr_CxxString(k), k); return ck_UniquePtr_CxxString(y, k); }
std::int32_t c_run_UniquePtr_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); auto a = ad_UniquePtr_CxxString(x); if (!r_take_UniquePtr_CxxString(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::string> x = r_make_UniquePtr_CxxString(k); return ck_UniquePtr_CxxString(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxString(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::string> x = r_try_UniquePtr_CxxString(k, false); return ck_UniquePtr_CxxString(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); auto a = ad_UniquePtr_CxxString(x); std::unique_ptr<std::string> y = r_echo_UniquePtr_CxxString(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxString(y) == a && ck_UniquePtr_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxString(200, mk_UniquePtr_CxxString(k), -1.5, k, mk_UniquePtr_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); std::unique_ptr<std::string> y = o.r_m_UniquePtr_CxxString(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_S2(std::unique_ptr<S2> x, std::int32_t k) { note(ad_UniquePtr_S2(x)); if (!ck_UniquePtr_S2(x, k)) return false; return true; }
std::unique_ptr<S2> c_make_UniquePtr_S2(std::int32_t k) { std::unique_ptr<S2> x = mk_UniquePtr_S2(k); note(ad_UniquePtr_S2(x)); return x; }
std::unique_ptr<S2> c_try_UniquePtr_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<S2> x = mk_UniquePtr_S2(k); note(ad_UniquePtr_S2(x)); return x; }
std::unique_ptr<S2> c_echo_UniquePtr_S2(std::unique_ptr<S2> x, std::int32_t k) { note(ck_UniquePtr_S2(x, k) ? ad_UniquePtr_S2(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_S2(std::uint8_t a, std::unique_ptr<S2> x, double b, std::int32_t k, std::unique_ptr<S2> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_S2(x, k) && b == -1.5 && ck_UniquePtr_S2(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<S2> S3::c_m_UniquePtr_S2(std::unique_ptr<S2> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_S2(rust::Fn<std::unique_ptr<S2>(std::unique_ptr<S2>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<S2> y = f(mk_UniquePtr_S2(k), k); return ck_UniquePtr_S2(y, k); }
std::int32_t c_run_UniquePtr_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<S2> x = mk_UniquePtr_S2(k); auto a = ad_UniquePtr_S2(x); if (!r_take_UniquePtr_S2(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<S2> x = r_make_UniquePtr_S2(k); return ck_UniquePtr_S2(x, k) && (vk_addr_c09b == ad_UniquePtr_S2(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<S2> x = r_try_UniquePtr_S2(k, false); return ck_UniquePtr_S2(x, k) && (vk_addr_c09b == ad_UniquePtr_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<S2> x = mk_UniquePtr_S2(k); auto a = ad_UniquePtr_S2(x); std::unique_ptr<S2> y = r_echo_UniquePtr_S2(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_S2(y) == a && ck_UniquePtr_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_S2(200, mk_UniquePtr_S2(k), -1.5, k, mk_UniquePtr_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<S2> x = mk_UniquePtr_S2(k); std::unique_ptr<S2> y = o.r_m_UniquePtr_S2(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_S7(std::unique_ptr<S7> x, std::int32_t k) { note(ad_UniquePtr_S7(x)); if (!ck_UniquePtr_S7(x, k)) return false; return true; }
std::unique_ptr<S7> c_make_UniquePtr_S7(std::int32_t k) { std::unique_ptr<S7> x = mk_UniquePtr_S7(k); note(ad_UniquePtr_S7(x)); return x; }
std::unique_ptr<S7> c_try_UniquePtr_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<S7> x = mk_UniquePtr_S7(k); note(ad_UniquePtr_S7(x)); return x; }
std::unique_ptr<S7> c_echo_UniquePtr_S7(std::unique_ptr<S7> x, std::int32_t k) { note(ck_UniquePtr_S7(x, k) ? ad_UniquePtr_S7(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_S7(std::uint8_t a, std::unique_ptr<S7> x, double b, std::int32_t k, std::unique_ptr<S7> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_S7(x, k) && b == -1.5 && ck_UniquePtr_S7(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<S7> S3::c_m_UniquePtr_S7(std::unique_ptr<S7> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_S7(rust::Fn<std::unique_ptr<S7>(std::unique_ptr<S7>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<S7> y = f(mk_UniquePtr_S7(k), k); return ck_UniquePtr_S7(y, k); }
std::int32_t c_run_UniquePtr_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<S7> x = mk_UniquePtr_S7(k); auto a = ad_UniquePtr_S7(x); if (!r_take_UniquePtr_S7(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<S7> x = r_make_UniquePtr_S7(k); return ck_UniquePtr_S7(x, k) && (vk_addr_c09b == ad_UniquePtr_S7(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<S7> x = r_try_UniquePtr_S7(k, false); return ck_UniquePtr_S7(x, k) && (vk_addr_c09b == ad_UniquePtr_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<S7> x = mk_UniquePtr_S7(k); auto a = ad_UniquePtr_S7(x); std::unique_ptr<S7> y = r_echo_UniquePtr_S7(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_S7(y) == a && ck_UniquePtr_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_S7(200, mk_UniquePtr_S7(k), -1.5, k, mk_UniquePtr_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<S7> x = mk_UniquePtr_S7(k); std::unique_ptr<S7> y = o.r_m_UniquePtr_S7(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k) { note(ad_UniquePtr_TrivA(x)); if (!ck_UniquePtr_TrivA(x, k)) return false; return true; }
std::unique_ptr<TrivA> c_make_UniquePtr_TrivA(std::int32_t k) { std::unique_ptr<TrivA> x = mk_UniquePtr_TrivA(k); note(ad_UniquePtr_TrivA(x)); return x; }
std::unique_ptr<TrivA> c_try_UniquePtr_TrivA(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<TrivA> x = mk_UniquePtr_TrivA(k); note(ad_UniquePtr_TrivA(x)); return x; }
std::unique_ptr<TrivA> c_echo_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k) { note(ck_UniquePtr_TrivA(x, k) ? ad_UniquePtr_TrivA(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_TrivA(std::uint8_t a, std::unique_ptr<TrivA> x, double b, std::int32_t k, std::unique_ptr<TrivA> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_TrivA(x, k) && b == -1.5 && ck_UniquePtr_TrivA(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<TrivA> CObj::c_m_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_UniquePtr_TrivA(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_TrivA(rust::Fn<std::unique_ptr<TrivA>(std::unique_ptr<TrivA>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<TrivA> y = f(mk_UniquePtr_TrivA(k), k); return ck_UniquePtr_TrivA(y, k); }
std::int32_t c_run_UniquePtr_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<TrivA> x = mk_UniquePtr_TrivA(k); auto a = ad_UniquePtr_TrivA(x); if (!r_take_UniquePtr_TrivA(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<TrivA> x = r_make_UniquePtr_TrivA(k); return ck_UniquePtr_TrivA(x, k) && (vk_addr_c09b == ad_UniquePtr_TrivA(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<TrivA> x = r_try_UniquePtr_TrivA(k, false); return ck_UniquePtr_TrivA(x, k) && (vk_addr_c09b == ad_UniquePtr_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_TrivA(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<TrivA> x = mk_UniquePtr_TrivA(k); auto a = ad_UniquePtr_TrivA(x); std::unique_ptr<TrivA> y = r_echo_UniquePtr_TrivA(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_TrivA(y) == a && ck_UniquePtr_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_TrivA(200, mk_UniquePtr_TrivA(k), -1.5, k, mk_UniquePtr_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<TrivA> x = mk_UniquePtr_TrivA(k); std::unique_ptr<TrivA> y = o.r_m_UniquePtr_TrivA(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_TrivA(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k) { note(ad_UniquePtr_CxxVector_u16(x)); if (!ck_UniquePtr_CxxVector_u16(x, k)) return false; return true; }
std::unique_ptr<std::vector<std::uint16_t>> c_make_UniquePtr_CxxVector_u16(std::int32_t k) { std::unique_ptr<std::vector<std::uint16_t>> x = mk_UniquePtr_CxxVector_u16(k); note(ad_UniquePtr_CxxVector_u16(x)); return x; }
std::unique_ptr<std::vector<std::uint16_t>> c_try_UniquePtr_CxxVector_u16(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::vector<std::uint16_t>> x = mk_UniquePtr_CxxVector_u16(k); note(ad_UniquePtr_CxxVector_u16(x)); return x; }
std::unique_ptr<std::vector<std::uint16_t>> c_echo_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k) { note(ck_UniquePtr_CxxVector_u16(x, k) ? ad_UniquePtr_CxxVector_u16(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxVector_u16(std::uint8_t a, std::unique_ptr<std::vector<std::uint16_t>> x, double b, std::int32_t k, std::unique_ptr<std::vector<std::uint16_t>> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxVector_u16(x, k) && b == -1.5 && ck_UniquePtr_CxxVector_u16(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::vector<std::uint16_t>> CObj::c_m_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_UniquePtr_CxxVector_u16(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxVector_u16(rust::Fn<std::unique_ptr<std::vector<std::uint16_t>>(std::unique_ptr<std::vector<std::uint16_t>>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::vector<std::uint16_t>> y = f(mk_UniquePtr_CxxVector_u16(k), k); return ck_UniquePtr_CxxVector_u16(y, k); }
std::int32_t c_run_UniquePtr_CxxVector_u16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::vector<std::uint16_t>> x = mk_UniquePtr_CxxVector_u16(k); auto a = ad_UniquePtr_CxxVector_u16(x); if (!r_take_UniquePtr_CxxVector_u16(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::vector<std::uint16_t>> x = r_make_UniquePtr_CxxVector_u16(k); return ck_UniquePtr_CxxVector_u16(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_u16(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::vector<std::uint16_t>> x = r_try_UniquePtr_CxxVector_u16(k, false); return ck_UniquePtr_CxxVector_u16(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_u16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxVector_u16(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::vector<std::uint16_t>> x = mk_UniquePtr_CxxVector_u16(k); auto a = ad_UniquePtr_CxxVector_u16(x); std::unique_ptr<std::vector<std::uint16_t>> y = r_echo_UniquePtr_CxxVector_u16(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxVector_u16(y) == a && ck_UniquePtr_CxxVector_u16(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxVector_u16(200, mk_UniquePtr_CxxVector_u16(k), -1.5, k, mk_UniquePtr_CxxVector_u16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<std::vector<std::uint16_t>> x = mk_UniquePtr_CxxVector_u16(k); std::unique_ptr<std::vector<std::uint16_t>> y = o.r_m_UniquePtr_CxxVector_u16(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxVector_u16(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> x, std::int32_t k) { note(ad_UniquePtr_CxxVector_CxxString(x)); if (!ck_UniquePtr_CxxVector_CxxString(x, k)) return false; return true; }
std::unique_ptr<std::vector<std::string>> c_make_UniquePtr_CxxVector_CxxString(std::int32_t k) { std::unique_ptr<std::vector<std::string>> x = mk_UniquePtr_CxxVector_CxxString(k); note(ad_UniquePtr_CxxVector_CxxString(x)); return x; }
std::unique_ptr<std::vector<std::string>> c_try_UniquePtr_CxxVector_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::vector<std::string>> x = mk_UniquePtr_CxxVector_CxxString(k); note(ad_UniquePtr_CxxVector_CxxString(x)); return x; }
std::unique_ptr<std::vector<std::string>> c_echo_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> x, std::int32_t k) { note(ck_UniquePtr_CxxVector_CxxString(x, k) ? ad_UniquePtr_CxxVector_CxxString(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxVector_CxxString(std::uint8_t a, std::unique_ptr<std::vector<std::string>> x, double b, std::int32_t k, std::unique_ptr<std::vector<std::string>> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxVector_CxxString(x, k) && b == -1.5 && ck_UniquePtr_CxxVector_CxxString(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::vector<std::string>> S3::c_m_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_CxxVector_CxxString(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxVector_CxxString(rust::Fn<std::unique_ptr<std::vector<std::string>>(std::unique_ptr<std::vector<std::string>>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::vector<std::string>> y = f(mk_UniquePtr_CxxVector_CxxString(k), k); return ck_UniquePtr_CxxVector_CxxString(y, k); }
std::int32_t c_run_UniquePtr_CxxVector_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::vector<std::string>> x = mk_UniquePtr_CxxVector_CxxString(k); auto a = ad_UniquePtr_CxxVector_CxxString(x); if (!r_take_UniquePtr_CxxVector_CxxString(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::vector<std::string>> x = r_make_UniquePtr_CxxVector_CxxString(k); return ck_UniquePtr_CxxVector_CxxString(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_CxxString(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::vector<std::string>> x = r_try_UniquePtr_CxxVector_CxxString(k, false); return ck_UniquePtr_CxxVector_CxxString(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxVector_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::vector<std::string>> x = mk_UniquePtr_CxxVector_CxxString(k); auto a = ad_UniquePtr_CxxVector_CxxString(x); std::unique_ptr<std::vector<std::string>> y = r_echo_UniquePtr_CxxVector_CxxString(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxVector_CxxString(y) == a && ck_UniquePtr_CxxVector_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxVector_CxxString(200, mk_UniquePtr_CxxVector_CxxString(k), -1.5, k, mk_UniquePtr_CxxVector_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<std::vector<std::string>> x = mk_UniquePtr_CxxVector_CxxString(k); std::unique_ptr<std::vector<std::string>> y = o.r_m_UniquePtr_CxxVector_CxxString(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxVector_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> x, std::int32_t k) { note(ad_UniquePtr_CxxVector_CObj(x)); if (!ck_UniquePtr_CxxVector_CObj(x, k)) return false; return true; }
std::unique_ptr<std::vector<CObj>> c_make_UniquePtr_CxxVector_CObj(std::int32_t k) { std::unique_ptr<std::vector<CObj>> x = mk_UniquePtr_CxxVector_CObj(k); note(ad_UniquePtr_CxxVector_CObj(x)); return x; }
std::unique_ptr<std::vector<CObj>> c_try_UniquePtr_CxxVector_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::vector<CObj>> x = mk_UniquePtr_CxxVector_CObj(k); note(ad_UniquePtr_CxxVector_CObj(x)); return x; }
std::unique_ptr<std::vector<CObj>> c_echo_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> x, std::int32_t k) { note(ck_UniquePtr_CxxVector_CObj(x, k) ? ad_UniquePtr_CxxVector_CObj(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxVector_CObj(std::uint8_t a, std::unique_ptr<std::vector<CObj>> x, double b, std::int32_t k, std::unique_ptr<std::vector<CObj>> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxVector_CObj(x, k) && b == -1.5 && ck_UniquePtr_CxxVector_CObj(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::vector<CObj>> S3::c_m_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_CxxVector_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxVector_CObj(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::vector<CObj>> y = f(mk_UniquePtr_CxxVector_CObj(k), k); return ck_UniquePtr_CxxVector_CObj(y, k); }
std::int32_t c_run_UniquePtr_CxxVector_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::vector<CObj>> x = mk_UniquePtr_CxxVector_CObj(k); auto a = ad_UniquePtr_CxxVector_CObj(x); if (!r_take_UniquePtr_CxxVector_CObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::vector<CObj>> x = r_make_UniquePtr_CxxVector_CObj(k); return ck_UniquePtr_CxxVector_CObj(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::vector<CObj>> x = r_try_UniquePtr_CxxVector_CObj(k, false); return ck_UniquePtr_CxxVector_CObj(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxVector_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::vector<CObj>> x = mk_UniquePtr_CxxVector_CObj(k); auto a = ad_UniquePtr_CxxVector_CObj(x); std::unique_ptr<std::vector<CObj>> y = r_echo_UniquePtr_CxxVector_CObj(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxVector_CObj(y) == a && ck_UniquePtr_CxxVector_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxVector_CObj(200, mk_UniquePtr_CxxVector_CObj(k), -1.5, k, mk_UniquePtr_CxxVector_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<std::vector<CObj>> x = mk_UniquePtr_CxxVector_CObj(k); std::unique_ptr<std::vector<CObj>> y = o.r_m_UniquePtr_CxxVector_CObj(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxVector_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k) { note(ad_UniquePtr_CxxVector_S7(x)); if (!ck_UniquePtr_CxxVector_S7(x, k)) return false; return true; }
std::unique_ptr<std::vector<S7>> c_make_UniquePtr_CxxVector_S7(std::int32_t k) { std::unique_ptr<std::vector<S7>> x = mk_UniquePtr_CxxVector_S7(k); note(ad_UniquePtr_CxxVector_S7(x)); return x; }
std::unique_ptr<std::vector<S7>> c_try_UniquePtr_CxxVector_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::vector<S7>> x = mk_UniquePtr_CxxVector_S7(k); note(ad_UniquePtr_CxxVector_S7(x)); return x; }
std::unique_ptr<std::vector<S7>> c_echo_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k) { note(ck_UniquePtr_CxxVector_S7(x, k) ? ad_UniquePtr_CxxVector_S7(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxVector_S7(std::uint8_t a, std::unique_ptr<std::vector<S7>> x, double b, std::int32_t k, std::unique_ptr<std::vector<S7>> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxVector_S7(x, k) && b == -1.5 && ck_UniquePtr_CxxVector_S7(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::vector<S7>> CObj::c_m_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_UniquePtr_CxxVector_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxVector_S7(rust::Fn<std::unique_ptr<std::vector<S7>>(std::unique_ptr<std::vector<S7>>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::vector<S7>> y = f(mk_UniquePtr_CxxVector_S7(k), k); return ck_UniquePtr_CxxVector_S7(y, k); }
std::int32_t c_run_UniquePtr_CxxVector_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::vector<S7>> x = mk_UniquePtr_CxxVector_S7(k); auto a = ad_UniquePtr_CxxVector_S7(x); if (!r_take_UniquePtr_CxxVector_S7(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::vector<S7>> x = r_make_UniquePtr_CxxVector_S7(k); return ck_UniquePtr_CxxVector_S7(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_S7(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::vector<S7>> x = r_try_UniquePtr_CxxVector_S7(k, false); return ck_UniquePtr_CxxVector_S7(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxVector_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::vector<S7>> x = mk_UniquePtr_CxxVector_S7(k); auto a = ad_UniquePtr_CxxVector_S7(x); std::unique_ptr<std::vector<S7>> y = r_echo_UniquePtr_CxxVector_S7(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxVector_S7(y) == a && ck_UniquePtr_CxxVector_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxVector_S7(200, mk_UniquePtr_CxxVector_S7(k), -1.5, k, mk_UniquePtr_CxxVector_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<std::vector<S7>> x = mk_UniquePtr_CxxVector_S7(k); std::unique_ptr<std::vector<S7>> y = o.r_m_UniquePtr_CxxVector_S7(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxVector_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k) { note(ad_UniquePtr_CxxVector_f64(x)); if (!ck_UniquePtr_CxxVector_f64(x, k)) return false; return true; }
std::unique_ptr<std::vector<double>> c_make_UniquePtr_CxxVector_f64(std::int32_t k) { std::unique_ptr<std::vector<double>> x = mk_UniquePtr_CxxVector_f64(k); note(ad_UniquePtr_CxxVector_f64(x)); return x; }
std::unique_ptr<std::vector<double>> c_try_UniquePtr_CxxVector_f64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::vector<double>> x = mk_UniquePtr_CxxVector_f64(k); note(ad_UniquePtr_CxxVector_f64(x)); return x; }
std::unique_ptr<std::vector<double>> c_echo_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k) { note(ck_UniquePtr_CxxVector_f64(x, k) ? ad_UniquePtr_CxxVector_f64(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxVector_f64(std::uint8_t a, std::unique_ptr<std::vector<double>> x, double b, std::int32_t k, std::unique_ptr<std::vector<double>> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxVector_f64(x, k) && b == -1.5 && ck_UniquePtr_CxxVector_f64(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::vector<double>> CObj::c_m_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_UniquePtr_CxxVector_f64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxVector_f64(rust::Fn<std::unique_ptr<std::vector<double>>(std::unique_ptr<std::vector<double>>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::vector<double>> y = f(mk_UniquePtr_CxxVector_f64(k), k); return ck_UniquePtr_CxxVector_f64(y, k); }
std::int32_t c_run_UniquePtr_CxxVector_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::vector<double>> x = mk_UniquePtr_CxxVector_f64(k); auto a = ad_UniquePtr_CxxVector_f64(x); if (!r_take_UniquePtr_CxxVector_f64(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::vector<double>> x = r_make_UniquePtr_CxxVector_f64(k); return ck_UniquePtr_CxxVector_f64(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_f64(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::vector<double>> x = r_try_UniquePtr_CxxVector_f64(k, false); return ck_UniquePtr_CxxVector_f64(x, k) && (vk_addr_c09b == ad_UniquePtr_CxxVector_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxVector_f64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::vector<double>> x = mk_UniquePtr_CxxVector_f64(k); auto a = ad_UniquePtr_CxxVector_f64(x); std::unique_ptr<std::vector<double>> y = r_echo_UniquePtr_CxxVector_f64(std::move(x), k); return vk_addr_c09b == a && ad_UniquePtr_CxxVector_f64(y) == a && ck_UniquePtr_CxxVector_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxVector_f64(200, mk_UniquePtr_CxxVector_f64(k), -1.5, k, mk_UniquePtr_CxxVector_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<std::vector<double>> x = mk_UniquePtr_CxxVector_f64(k); std::unique_ptr<std::vector<double>> y = o.r_m_UniquePtr_CxxVector_f64(std::move(x), k); return vk_addr_c09b == 0 && ck_UniquePtr_CxxVector_f64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ad_SharedPtr_CObj(x)); if (!ck_SharedPtr_CObj(x, k)) return false; return true; }
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k) { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_SharedPtr_CObj(x, k) ? ad_SharedPtr_CObj(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_CObj(x, k) && b == -1.5 && ck_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<CObj> S3::c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_SharedPtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> y = f(mk_SharedPtr_CObj(k), k); return ck_SharedPtr_CObj(y, k); }
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); if (!r_take_SharedPtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<CObj> x = r_make_SharedPtr_CObj(k); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09b == ad_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> x = r_try_SharedPtr_CObj(k, false); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09b == ad_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); std::shared_ptr<CObj> y = r_echo_SharedPtr_CObj(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_CObj(y) == a && ck_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); std::shared_ptr<CObj> y = o.r_m_SharedPtr_CObj(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_CxxString(std::shared_ptr<std::string> x, std::int32_t k) { note(ad_SharedPtr_CxxString(x)); if (!ck_SharedPtr_CxxString(x, k)) return false; return true; }
std::shared_ptr<std::string> c_make_SharedPtr_CxxString(std::int32_t k) { std::shared_ptr<std::string> x = mk_SharedPtr_CxxString(k); note(ad_SharedPtr_CxxString(x)); return x; }
std::shared_ptr<std::string> c_try_SharedPtr_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<std::string> x = mk_SharedPtr_CxxString(k); note(ad_SharedPtr_CxxString(x)); return x; }
std::shared_ptr<std::string> c_echo_SharedPtr_CxxString(std::shared_ptr<std::string> x, std::int32_t k) { note(ck_SharedPtr_CxxString(x, k) ? ad_SharedPtr_CxxString(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_CxxString(std::uint8_t a, std::shared_ptr<std::string> x, double b, std::int32_t k, std::shared_ptr<std::string> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_CxxString(x, k) && b == -1.5 && ck_SharedPtr_CxxString(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<std::string> S3::c_m_SharedPtr_CxxString(std::shared_ptr<std::string> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_SharedPtr_CxxString(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_CxxString(rust::Fn<std::shared_ptr<std::string>(std::shared_ptr<std::string>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<std::string> y = f(mk_SharedPtr_CxxString(k), k); return ck_SharedPtr_CxxString(y, k); }
std::int32_t c_run_SharedPtr_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<std::string> x = mk_SharedPtr_CxxString(k); auto a = ad_SharedPtr_CxxString(x); if (!r_take_SharedPtr_CxxString(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<std::string> x = r_make_SharedPtr_CxxString(k); return ck_SharedPtr_CxxString(x, k) && (vk_addr_c09b == ad_SharedPtr_CxxString(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<std::string> x = r_try_SharedPtr_CxxString(k, false); return ck_SharedPtr_CxxString(x, k) && (vk_addr_c09b == ad_SharedPtr_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<std::string> x = mk_SharedPtr_CxxString(k); auto a = ad_SharedPtr_CxxString(x); std::shared_ptr<std::string> y = r_echo_SharedPtr_CxxString(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_CxxString(y) == a && ck_SharedPtr_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_CxxString(200, mk_SharedPtr_CxxString(k), -1.5, k, mk_SharedPtr_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::shared_ptr<std::string> x = mk_SharedPtr_CxxString(k); std::shared_ptr<std::string> y = o.r_m_SharedPtr_CxxString(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k) { note(ad_SharedPtr_u32(x)); if (!ck_SharedPtr_u32(x, k)) return false; return true; }
std::shared_ptr<std::uint32_t> c_make_SharedPtr_u32(std::int32_t k) { std::shared_ptr<std::uint32_t> x = mk_SharedPtr_u32(k); note(ad_SharedPtr_u32(x)); return x; }
std::shared_ptr<std::uint32_t> c_try_SharedPtr_u32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<std::uint32_t> x = mk_SharedPtr_u32(k); note(ad_SharedPtr_u32(x)); return x; }
std::shared_ptr<std::uint32_t> c_echo_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k) { note(ck_SharedPtr_u32(x, k) ? ad_SharedPtr_u32(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_u32(std::uint8_t a, std::shared_ptr<std::uint32_t> x, double b, std::int32_t k, std::shared_ptr<std::uint32_t> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_u32(x, k) && b == -1.5 && ck_SharedPtr_u32(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<std::uint32_t> CObj::c_m_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_SharedPtr_u32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_u32(rust::Fn<std::shared_ptr<std::uint32_t>(std::shared_ptr<std::uint32_t>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<std::uint32_t> y = f(mk_SharedPtr_u32(k), k); return ck_SharedPtr_u32(y, k); }
std::int32_t c_run_SharedPtr_u32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<std::uint32_t> x = mk_SharedPtr_u32(k); auto a = ad_SharedPtr_u32(x); if (!r_take_SharedPtr_u32(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<std::uint32_t> x = r_make_SharedPtr_u32(k); return ck_SharedPtr_u32(x, k) && (vk_addr_c09b == ad_SharedPtr_u32(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<std::uint32_t> x = r_try_SharedPtr_u32(k, false); return ck_SharedPtr_u32(x, k) && (vk_addr_c09b == ad_SharedPtr_u32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_u32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<std::uint32_t> x = mk_SharedPtr_u32(k); auto a = ad_SharedPtr_u32(x); std::shared_ptr<std::uint32_t> y = r_echo_SharedPtr_u32(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_u32(y) == a && ck_SharedPtr_u32(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_u32(200, mk_SharedPtr_u32(k), -1.5, k, mk_SharedPtr_u32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::shared_ptr<std::uint32_t> x = mk_SharedPtr_u32(k); std::shared_ptr<std::uint32_t> y = o.r_m_SharedPtr_u32(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_u32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k) { note(ad_SharedPtr_bool(x)); if (!ck_SharedPtr_bool(x, k)) return false; return true; }
std::shared_ptr<bool> c_make_SharedPtr_bool(std::int32_t k) { std::shared_ptr<bool> x = mk_SharedPtr_bool(k); note(ad_SharedPtr_bool(x)); return x; }
std::shared_ptr<bool> c_try_SharedPtr_bool(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<bool> x = mk_SharedPtr_bool(k); note(ad_SharedPtr_bool(x)); return x; }
std::shared_ptr<bool> c_echo_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k) { note(ck_SharedPtr_bool(x, k) ? ad_SharedPtr_bool(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_bool(std::uint8_t a, std::shared_ptr<bool> x, double b, std::int32_t k, std::shared_ptr<bool> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_bool(x, k) && b == -1.5 && ck_SharedPtr_bool(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<bool> CObj::c_m_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_SharedPtr_bool(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_bool(rust::Fn<std::shared_ptr<bool>(std::shared_ptr<bool>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<bool> y = f(mk_SharedPtr_bool(k), k); return ck_SharedPtr_bool(y, k); }
std::int32_t c_run_SharedPtr_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<bool> x = mk_SharedPtr_bool(k); auto a = ad_SharedPtr_bool(x); if (!r_take_SharedPtr_bool(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<bool> x = r_make_SharedPtr_bool(k); return ck_SharedPtr_bool(x, k) && (vk_addr_c09b == ad_SharedPtr_bool(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<bool> x = r_try_SharedPtr_bool(k, false); return ck_SharedPtr_bool(x, k) && (vk_addr_c09b == ad_SharedPtr_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_bool(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<bool> x = mk_SharedPtr_bool(k); auto a = ad_SharedPtr_bool(x); std::shared_ptr<bool> y = r_echo_SharedPtr_bool(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_bool(y) == a && ck_SharedPtr_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_bool(200, mk_SharedPtr_bool(k), -1.5, k, mk_SharedPtr_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<bool> x = mk_SharedPtr_bool(k); std::shared_ptr<bool> y = o.r_m_SharedPtr_bool(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_bool(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_f64(std::shared_ptr<double> x, std::int32_t k) { note(ad_SharedPtr_f64(x)); if (!ck_SharedPtr_f64(x, k)) return false; return true; }
std::shared_ptr<double> c_make_SharedPtr_f64(std::int32_t k) { std::shared_ptr<double> x = mk_SharedPtr_f64(k); note(ad_SharedPtr_f64(x)); return x; }
std::shared_ptr<double> c_try_SharedPtr_f64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<double> x = mk_SharedPtr_f64(k); note(ad_SharedPtr_f64(x)); return x; }
std::shared_ptr<double> c_echo_SharedPtr_f64(std::shared_ptr<double> x, std::int32_t k) { note(ck_SharedPtr_f64(x, k) ? ad_SharedPtr_f64(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_f64(std::uint8_t a, std::shared_ptr<double> x, double b, std::int32_t k, std::shared_ptr<double> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_f64(x, k) && b == -1.5 && ck_SharedPtr_f64(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<double> S3::c_m_SharedPtr_f64(std::shared_ptr<double> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_SharedPtr_f64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_f64(rust::Fn<std::shared_ptr<double>(std::shared_ptr<double>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<double> y = f(mk_SharedPtr_f64(k), k); return ck_SharedPtr_f64(y, k); }
std::int32_t c_run_SharedPtr_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<double> x = mk_SharedPtr_f64(k); auto a = ad_SharedPtr_f64(x); if (!r_take_SharedPtr_f64(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<double> x = r_make_SharedPtr_f64(k); return ck_SharedPtr_f64(x, k) && (vk_addr_c09b == ad_SharedPtr_f64(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<double> x = r_try_SharedPtr_f64(k, false); return ck_SharedPtr_f64(x, k) && (vk_addr_c09b == ad_SharedPtr_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_f64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<double> x = mk_SharedPtr_f64(k); auto a = ad_SharedPtr_f64(x); std::shared_ptr<double> y = r_echo_SharedPtr_f64(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_f64(y) == a && ck_SharedPtr_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_f64(200, mk_SharedPtr_f64(k), -1.5, k, mk_SharedPtr_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<double> x = mk_SharedPtr_f64(k); std::shared_ptr<double> y = o.r_m_SharedPtr_f64(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_f64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_S7(std::shared_ptr<S7> x, std::int32_t k) { note(ad_SharedPtr_S7(x)); if (!ck_SharedPtr_S7(x, k)) return false; return true; }
std::shared_ptr<S7> c_make_SharedPtr_S7(std::int32_t k) { std::shared_ptr<S7> x = mk_SharedPtr_S7(k); note(ad_SharedPtr_S7(x)); return x; }
std::shared_ptr<S7> c_try_SharedPtr_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<S7> x = mk_SharedPtr_S7(k); note(ad_SharedPtr_S7(x)); return x; }
std::shared_ptr<S7> c_echo_SharedPtr_S7(std::shared_ptr<S7> x, std::int32_t k) { note(ck_SharedPtr_S7(x, k) ? ad_SharedPtr_S7(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_S7(std::uint8_t a, std::shared_ptr<S7> x, double b, std::int32_t k, std::shared_ptr<S7> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_S7(x, k) && b == -1.5 && ck_SharedPtr_S7(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<S7> S3::c_m_SharedPtr_S7(std::shared_ptr<S7> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_SharedPtr_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_S7(rust::Fn<std::shared_ptr<S7>(std::shared_ptr<S7>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<S7> y = f(mk_SharedPtr_S7(k), k); return ck_SharedPtr_S7(y, k); }
std::int32_t c_run_SharedPtr_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<S7> x = mk_SharedPtr_S7(k); auto a = ad_SharedPtr_S7(x); if (!r_take_SharedPtr_S7(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<S7> x = r_make_SharedPtr_S7(k); return ck_SharedPtr_S7(x, k) && (vk_addr_c09b == ad_SharedPtr_S7(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<S7> x = r_try_SharedPtr_S7(k, false); return ck_SharedPtr_S7(x, k) && (vk_addr_c09b == ad_SharedPtr_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<S7> x = mk_SharedPtr_S7(k); auto a = ad_SharedPtr_S7(x); std::shared_ptr<S7> y = r_echo_SharedPtr_S7(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_S7(y) == a && ck_SharedPtr_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_S7(200, mk_SharedPtr_S7(k), -1.5, k, mk_SharedPtr_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::shared_ptr<S7> x = mk_SharedPtr_S7(k); std::shared_ptr<S7> y = o.r_m_SharedPtr_S7(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k) { note(ad_SharedPtr_TrivA(x)); if (!ck_SharedPtr_TrivA(x, k)) return false; return true; }
std::shared_ptr<TrivA> c_make_SharedPtr_TrivA(std::int32_t k) { std::shared_ptr<TrivA> x = mk_SharedPtr_TrivA(k); note(ad_SharedPtr_TrivA(x)); return x; }
std::shared_ptr<TrivA> c_try_SharedPtr_TrivA(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<TrivA> x = mk_SharedPtr_TrivA(k); note(ad_SharedPtr_TrivA(x)); return x; }
std::shared_ptr<TrivA> c_echo_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k) { note(ck_SharedPtr_TrivA(x, k) ? ad_SharedPtr_TrivA(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_TrivA(std::uint8_t a, std::shared_ptr<TrivA> x, double b, std::int32_t k, std::shared_ptr<TrivA> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_TrivA(x, k) && b == -1.5 && ck_SharedPtr_TrivA(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<TrivA> CObj::c_m_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_SharedPtr_TrivA(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_TrivA(rust::Fn<std::shared_ptr<TrivA>(std::shared_ptr<TrivA>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<TrivA> y = f(mk_SharedPtr_TrivA(k), k); return ck_SharedPtr_TrivA(y, k); }
std::int32_t c_run_SharedPtr_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<TrivA> x = mk_SharedPtr_TrivA(k); auto a = ad_SharedPtr_TrivA(x); if (!r_take_SharedPtr_TrivA(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<TrivA> x = r_make_SharedPtr_TrivA(k); return ck_SharedPtr_TrivA(x, k) && (vk_addr_c09b == ad_SharedPtr_TrivA(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<TrivA> x = r_try_SharedPtr_TrivA(k, false); return ck_SharedPtr_TrivA(x, k) && (vk_addr_c09b == ad_SharedPtr_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_TrivA(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<TrivA> x = mk_SharedPtr_TrivA(k); auto a = ad_SharedPtr_TrivA(x); std::shared_ptr<TrivA> y = r_echo_SharedPtr_TrivA(std::move(x), k); return vk_addr_c09b == a && ad_SharedPtr_TrivA(y) == a && ck_SharedPtr_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_TrivA(200, mk_SharedPtr_TrivA(k), -1.5, k, mk_SharedPtr_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::shared_ptr<TrivA> x = mk_SharedPtr_TrivA(k); std::shared_ptr<TrivA> y = o.r_m_SharedPtr_TrivA(std::move(x), k); return vk_addr_c09b == 0 && ck_SharedPtr_TrivA(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k) { note(ad_WeakPtr_CObj(x)); if (!ck_WeakPtr_CObj(x, k)) return false; return true; }
std::weak_ptr<CObj> c_make_WeakPtr_CObj(std::int32_t k) { std::weak_ptr<CObj> x = mk_WeakPtr_CObj(k); note(ad_WeakPtr_CObj(x)); return x; }
std::weak_ptr<CObj> c_try_WeakPtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::weak_ptr<CObj> x = mk_WeakPtr_CObj(k); note(ad_WeakPtr_CObj(x)); return x; }
std::weak_ptr<CObj> c_echo_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k) { note(ck_WeakPtr_CObj(x, k) ? ad_WeakPtr_CObj(x) : 1); return std::move(x); }
bool c_mix_WeakPtr_CObj(std::uint8_t a, std::weak_ptr<CObj> x, double b, std::int32_t k, std::weak_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_WeakPtr_CObj(x, k) && b == -1.5 && ck_WeakPtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::weak_ptr<CObj> CObj::c_m_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_WeakPtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_WeakPtr_CObj(rust::Fn<std::weak_ptr<CObj>(std::weak_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::weak_ptr<CObj> y = f(mk_WeakPtr_CObj(k), k); return ck_WeakPtr_CObj(y, k); }
std::int32_t c_run_WeakPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::weak_ptr<CObj> x = mk_WeakPtr_CObj(k); auto a = ad_WeakPtr_CObj(x); if (!r_take_WeakPtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::weak_ptr<CObj> x = r_make_WeakPtr_CObj(k); return ck_WeakPtr_CObj(x, k) && (vk_addr_c09b == ad_WeakPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::weak_ptr<CObj> x = r_try_WeakPtr_CObj(k, false); return ck_WeakPtr_CObj(x, k) && (vk_addr_c09b == ad_WeakPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_WeakPtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::weak_ptr<CObj> x = mk_WeakPtr_CObj(k); auto a = ad_WeakPtr_CObj(x); std::weak_ptr<CObj> y = r_echo_WeakPtr_CObj(std::move(x), k); return vk_addr_c09b == a && ad_WeakPtr_CObj(y) == a && ck_WeakPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_WeakPtr_CObj(200, mk_WeakPtr_CObj(k), -1.5, k, mk_WeakPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::weak_ptr<CObj> x = mk_WeakPtr_CObj(k); std::weak_ptr<CObj> y = o.r_m_WeakPtr_CObj(std::move(x), k); return vk_addr_c09b == 0 && ck_WeakPtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_WeakPtr_CxxString(std::weak_ptr<std::string> x, std::int32_t k) { note(ad_WeakPtr_CxxString(x)); if (!ck_WeakPtr_CxxString(x, k)) return false; return true; }
std::weak_ptr<std::string> c_make_WeakPtr_CxxString(std::int32_t k) { std::weak_ptr<std::string> x = mk_WeakPtr_CxxString(k); note(ad_WeakPtr_CxxString(x)); return x; }
std::weak_ptr<std::string> c_try_WeakPtr_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::weak_ptr<std::string> x = mk_WeakPtr_CxxString(k); note(ad_WeakPtr_CxxString(x)); return x; }
std::weak_ptr<std::string> c_echo_WeakPtr_CxxString(std::weak_ptr<std::string> x, std::int32_t k) { note(ck_WeakPtr_CxxString(x, k) ? ad_WeakPtr_CxxString(x) : 1); return std::move(x); }
bool c_mix_WeakPtr_CxxString(std::uint8_t a, std::weak_ptr<std::string> x, double b, std::int32_t k, std::weak_ptr<std::string> y, std::uint16_t c) { return a == 200 && ck_WeakPtr_CxxString(x, k) && b == -1.5 && ck_WeakPtr_CxxString(y, (k + 1) & 3) && c == 60000; }
std::weak_ptr<std::string> S3::c_m_WeakPtr_CxxString(std::weak_ptr<std::string> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_WeakPtr_CxxString(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_WeakPtr_CxxString(rust::Fn<std::weak_ptr<std::string>(std::weak_ptr<std::string>, std::int32_t)> f, std::int32_t k) { std::weak_ptr<std::string> y = f(mk_WeakPtr_CxxString(k), k); return ck_WeakPtr_CxxString(y, k); }
std::int32_t c_run_WeakPtr_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::weak_ptr<std::string> x = mk_WeakPtr_CxxString(k); auto a = ad_WeakPtr_CxxString(x); if (!r_take_WeakPtr_CxxString(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::weak_ptr<std::string> x = r_make_WeakPtr_CxxString(k); return ck_WeakPtr_CxxString(x, k) && (vk_addr_c09b == ad_WeakPtr_CxxString(x)) ? 0 : 13; }
 case 2: { std::weak_ptr<std::string> x = r_try_WeakPtr_CxxString(k, false); return ck_WeakPtr_CxxString(x, k) && (vk_addr_c09b == ad_WeakPtr_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_WeakPtr_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::weak_ptr<std::string> x = mk_WeakPtr_CxxString(k); auto a = ad_WeakPtr_CxxString(x); std::weak_ptr<std::string> y = r_echo_WeakPtr_CxxString(std::move(x), k); return vk_addr_c09b == a && ad_WeakPtr_CxxString(y) == a && ck_WeakPtr_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_WeakPtr_CxxString(200, mk_WeakPtr_CxxString(k), -1.5, k, mk_WeakPtr_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::weak_ptr<std::string> x = mk_WeakPtr_CxxString(k); std::weak_ptr<std::string> y = o.r_m_WeakPtr_CxxString(std::move(x), k); return vk_addr_c09b == 0 && ck_WeakPtr_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_WeakPtr_i64(std::weak_ptr<std::int64_t> x, std::int32_t k) { note(ad_WeakPtr_i64(x)); if (!ck_WeakPtr_i64(x, k)) return false; return true; }
std::weak_ptr<std::int64_t> c_make_WeakPtr_i64(std::int32_t k) { std::weak_ptr<std::int64_t> x = mk_WeakPtr_i64(k); note(ad_WeakPtr_i64(x)); return x; }
std::weak_ptr<std::int64_t> c_try_WeakPtr_i64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::weak_ptr<std::int64_t> x = mk_WeakPtr_i64(k); note(ad_WeakPtr_i64(x)); return x; }
std::weak_ptr<std::int64_t> c_echo_WeakPtr_i64(std::weak_ptr<std::int64_t> x, std::int32_t k) { note(ck_WeakPtr_i64(x, k) ? ad_WeakPtr_i64(x) : 1); return std::move(x); }
bool c_mix_WeakPtr_i64(std::uint8_t a, std::weak_ptr<std::int64_t> x, double b, std::int32_t k, std::weak_ptr<std::int64_t> y, std::uint16_t c) { return a == 200 && ck_WeakPtr_i64(x, k) && b == -1.5 && ck_WeakPtr_i64(y, (k + 1) & 3) && c == 60000; }
std::weak_ptr<std::int64_t> S3::c_m_WeakPtr_i64(std::weak_ptr<std::int64_t> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_WeakPtr_i64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_WeakPtr_i64(rust::Fn<std::weak_ptr<std::int64_t>(std::weak_ptr<std::int64_t>, std::int32_t)> f, std::int32_t k) { std::weak_ptr<std::int64_t> y = f(mk_WeakPtr_i64(k), k); return ck_WeakPtr_i64(y, k); }
std::int32_t c_run_WeakPtr_i64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::weak_ptr<std::int64_t> x = mk_WeakPtr_i64(k); auto a = ad_WeakPtr_i64(x); if (!r_take_WeakPtr_i64(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::weak_ptr<std::int64_t> x = r_make_WeakPtr_i64(k); return ck_WeakPtr_i64(x, k) && (vk_addr_c09b == ad_WeakPtr_i64(x)) ? 0 : 13; }
 case 2: { std::weak_ptr<std::int64_t> x = r_try_WeakPtr_i64(k, false); return ck_WeakPtr_i64(x, k) && (vk_addr_c09b == ad_WeakPtr_i64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_WeakPtr_i64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::weak_ptr<std::int64_t> x = mk_WeakPtr_i64(k); auto a = ad_WeakPtr_i64(x); std::weak_ptr<std::int64_t> y = r_echo_WeakPtr_i64(std::move(x), k); return vk_addr_c09b == a && ad_WeakPtr_i64(y) == a && ck_WeakPtr_i64(y, k) ? 0 : 17; }
 case 5: { return r_mix_WeakPtr_i64(200, mk_WeakPtr_i64(k), -1.5, k, mk_WeakPtr_i64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::weak_ptr<std::int64_t> x = mk_WeakPtr_i64(k); std::weak_ptr<std::int64_t> y = o.r_m_WeakPtr_i64(std::move(x), k); return vk_addr_c09b == 0 && ck_WeakPtr_i64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k) { note(ad_WeakPtr_S2(x)); if (!ck_WeakPtr_S2(x, k)) return false; return true; }
std::weak_ptr<S2> c_make_WeakPtr_S2(std::int32_t k) { std::weak_ptr<S2> x = mk_WeakPtr_S2(k); note(ad_WeakPtr_S2(x)); return x; }
std::weak_ptr<S2> c_try_WeakPtr_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::weak_ptr<S2> x = mk_WeakPtr_S2(k); note(ad_WeakPtr_S2(x)); return x; }
std::weak_ptr<S2> c_echo_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k) { note(ck_WeakPtr_S2(x, k) ? ad_WeakPtr_S2(x) : 1); return std::move(x); }
bool c_mix_WeakPtr_S2(std::uint8_t a, std::weak_ptr<S2> x, double b, std::int32_t k, std::weak_ptr<S2> y, std::uint16_t c) { return a == 200 && ck_WeakPtr_S2(x, k) && b == -1.5 && ck_WeakPtr_S2(y, (k + 1) & 3) && c == 60000; }
std::weak_ptr<S2> CObj::c_m_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_WeakPtr_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_WeakPtr_S2(rust::Fn<std::weak_ptr<S2>(std::weak_ptr<S2>, std::int32_t)> f, std::int32_t k) { std::weak_ptr<S2> y = f(mk_WeakPtr_S2(k), k); return ck_WeakPtr_S2(y, k); }
std::int32_t c_run_WeakPtr_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::weak_ptr<S2> x = mk_WeakPtr_S2(k); auto a = ad_WeakPtr_S2(x); if (!r_take_WeakPtr_S2(std::move(x), k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::weak_ptr<S2> x = r_make_WeakPtr_S2(k); return ck_WeakPtr_S2(x, k) && (vk_addr_c09b == ad_WeakPtr_S2(x)) ? 0 : 13; }
 case 2: { std::weak_ptr<S2> x = r_try_WeakPtr_S2(k, false); return ck_WeakPtr_S2(x, k) && (vk_addr_c09b == ad_WeakPtr_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_WeakPtr_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::weak_ptr<S2> x = mk_WeakPtr_S2(k); auto a = ad_WeakPtr_S2(x); std::weak_ptr<S2> y = r_echo_WeakPtr_S2(std::move(x), k); return vk_addr_c09b == a && ad_WeakPtr_S2(y) == a && ck_WeakPtr_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_WeakPtr_S2(200, mk_WeakPtr_S2(k), -1.5, k, mk_WeakPtr_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::weak_ptr<S2> x = mk_WeakPtr_S2(k); std::weak_ptr<S2> y = o.r_m_WeakPtr_S2(std::move(x), k); return vk_addr_c09b == 0 && ck_WeakPtr_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_u8(std::uint8_t const & x, std::int32_t k) { note(ad_ref_u8(x)); if (!ck_ref_u8(x, k)) return false; return true; }
std::uint8_t const & c_make_ref_u8(std::uint8_t const &, std::int32_t k) { std::uint8_t const & x = mk_ref_u8(k); note(ad_ref_u8(x)); return x; }
std::uint8_t const & c_try_ref_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint8_t const & x = mk_ref_u8(k); note(ad_ref_u8(x)); return x; }
std::uint8_t const & c_echo_ref_u8(std::uint8_t const & x, std::int32_t k) { note(ck_ref_u8(x, k) ? ad_ref_u8(x) : 1); return x; }
bool c_mix_ref_u8(std::uint8_t a, std::uint8_t const & x, double b, std::int32_t k, std::uint8_t const & y, std::uint16_t c) { return a == 200 && ck_ref_u8(x, k) && b == -1.5 && ck_ref_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_u8(std::uint8_t const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_u8(x, k); }
bool c_cb_ref_u8(rust::Fn<std::uint8_t const &(std::uint8_t const &, std::int32_t)> f, std::int32_t k) { std::uint8_t const & y = f(mk_ref_u8(k), k); return ck_ref_u8(y, k); }
std::int32_t c_run_ref_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint8_t const & x = mk_ref_u8(k); auto a = ad_ref_u8(x); if (!r_take_ref_u8(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::uint8_t const & x = r_make_ref_u8(Z, k); return ck_ref_u8(x, k) && (vk_addr_c09b == ad_ref_u8(x)) ? 0 : 13; }
 case 2: { std::uint8_t const & x = r_try_ref_u8(Z, k, false); return ck_ref_u8(x, k) && (vk_addr_c09b == ad_ref_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint8_t const & x = mk_ref_u8(k); auto a = ad_ref_u8(x); std::uint8_t const & y = r_echo_ref_u8(x, k); return vk_addr_c09b == a && ad_ref_u8(y) == a && ck_ref_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_u8(200, mk_ref_u8(k), -1.5, k, mk_ref_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint8_t const & x = mk_ref_u8(k); return o.r_m_ref_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_u64(std::uint64_t const & x, std::int32_t k) { note(ad_ref_u64(x)); if (!ck_ref_u64(x, k)) return false; return true; }
std::uint64_t const & c_make_ref_u64(std::uint8_t const &, std::int32_t k) { std::uint64_t const & x = mk_ref_u64(k); note(ad_ref_u64(x)); return x; }
std::uint64_t const & c_try_ref_u64(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint64_t const & x = mk_ref_u64(k); note(ad_ref_u64(x)); return x; }
std::uint64_t const & c_echo_ref_u64(std::uint64_t const & x, std::int32_t k) { note(ck_ref_u64(x, k) ? ad_ref_u64(x) : 1); return x; }
bool c_mix_ref_u64(std::uint8_t a, std::uint64_t const & x, double b, std::int32_t k, std::uint64_t const & y, std::uint16_t c) { return a == 200 && ck_ref_u64(x, k) && b == -1.5 && ck_ref_u64(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_u64(std::uint64_t const & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_ref_u64(x, k); }
bool c_cb_ref_u64(rust::Fn<std::uint64_t const &(std::uint64_t const &, std::int32_t)> f, std::int32_t k) { std::uint64_t const & y = f(mk_ref_u64(k), k); return ck_ref_u64(y, k); }
std::int32_t c_run_ref_u64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint64_t const & x = mk_ref_u64(k); auto a = ad_ref_u64(x); if (!r_take_ref_u64(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::uint64_t const & x = r_make_ref_u64(Z, k); return ck_ref_u64(x, k) && (vk_addr_c09b == ad_ref_u64(x)) ? 0 : 13; }
 case 2: { std::uint64_t const & x = r_try_ref_u64(Z, k, false); return ck_ref_u64(x, k) && (vk_addr_c09b == ad_ref_u64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_u64(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint64_t const & x = mk_ref_u64(k); auto a = ad_ref_u64(x); std::uint64_t const & y = r_echo_ref_u64(x, k); return vk_addr_c09b == a && ad_ref_u64(y) == a && ck_ref_u64(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_u64(200, mk_ref_u64(k), -1.5, k, mk_ref_u64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint64_t const & x = mk_ref_u64(k); return o.r_m_ref_u64(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_f64(double const & x, std::int32_t k) { note(ad_ref_f64(x)); if (!ck_ref_f64(x, k)) return false; return true; }
double const & c_make_ref_f64(std::uint8_t const &, std::int32_t k) { double const & x = mk_ref_f64(k); note(ad_ref_f64(x)); return x; }
double const & c_try_ref_f64(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); double const & x = mk_ref_f64(k); note(ad_ref_f64(x)); return x; }
double const & c_echo_ref_f64(double const & x, std::int32_t k) { note(ck_ref_f64(x, k) ? ad_ref_f64(x) : 1); return x; }
bool c_mix_ref_f64(std::uint8_t a, double const & x, double b, std::int32_t k, double const & y, std::uint16_t c) { return a == 200 && ck_ref_f64(x, k) && b == -1.5 && ck_ref_f64(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_f64(double const & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_ref_f64(x, k); }
bool c_cb_ref_f64(rust::Fn<double const &(double const &, std::int32_t)> f, std::int32_t k) { double const & y = f(mk_ref_f64(k), k); return ck_ref_f64(y, k); }
std::int32_t c_run_ref_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { double const & x = mk_ref_f64(k); auto a = ad_ref_f64(x); if (!r_take_ref_f64(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { double const & x = r_make_ref_f64(Z, k); return ck_ref_f64(x, k) && (vk_addr_c09b == ad_ref_f64(x)) ? 0 : 13; }
 case 2: { double const & x = r_try_ref_f64(Z, k, false); return ck_ref_f64(x, k) && (vk_addr_c09b == ad_ref_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_f64(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { double const & x = mk_ref_f64(k); auto a = ad_ref_f64(x); double const & y = r_echo_ref_f64(x, k); return vk_addr_c09b == a && ad_ref_f64(y) == a && ck_ref_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_f64(200, mk_ref_f64(k), -1.5, k, mk_ref_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; double const & x = mk_ref_f64(k); return o.r_m_ref_f64(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_bool(bool const & x, std::int32_t k) { note(ad_ref_bool(x)); if (!ck_ref_bool(x, k)) return false; return true; }
bool const & c_make_ref_bool(std::uint8_t const &, std::int32_t k) { bool const & x = mk_ref_bool(k); note(ad_ref_bool(x)); return x; }
bool const & c_try_ref_bool(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); bool const & x = mk_ref_bool(k); note(ad_ref_bool(x)); return x; }
bool const & c_echo_ref_bool(bool const & x, std::int32_t k) { note(ck_ref_bool(x, k) ? ad_ref_bool(x) : 1); return x; }
bool c_mix_ref_bool(std::uint8_t a, bool const & x, double b, std::int32_t k, bool const & y, std::uint16_t c) { return a == 200 && ck_ref_bool(x, k) && b == -1.5 && ck_ref_bool(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_bool(bool const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_bool(x, k); }
bool c_cb_ref_bool(rust::Fn<bool const &(bool const &, std::int32_t)> f, std::int32_t k) { bool const & y = f(mk_ref_bool(k), k); return ck_ref_bool(y, k); }
std::int32_t c_run_ref_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { bool const & x = mk_ref_bool(k); auto a = ad_ref_bool(x); if (!r_take_ref_bool(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { bool const & x = r_make_ref_bool(Z, k); return ck_ref_bool(x, k) && (vk_addr_c09b == ad_ref_bool(x)) ? 0 : 13; }
 case 2: { bool const & x = r_try_ref_bool(Z, k, false); return ck_ref_bool(x, k) && (vk_addr_c09b == ad_ref_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_bool(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { bool const & x = mk_ref_bool(k); auto a = ad_ref_bool(x); bool const & y = r_echo_ref_bool(x, k); return vk_addr_c09b == a && ad_ref_bool(y) == a && ck_ref_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_bool(200, mk_ref_bool(k), -1.5, k, mk_ref_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; bool const & x = mk_ref_bool(k); return o.r_m_ref_bool(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_String(rust::String const & x, std::int32_t k) { note(ad_ref_String(x)); if (!ck_ref_String(x, k)) return false; return true; }
rust::String const & c_make_ref_String(std::uint8_t const &, std::int32_t k) { rust::String const & x = mk_ref_String(k); note(ad_ref_String(x)); return x; }
rust::String const & c_try_ref_String(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::String const & x = mk_ref_String(k); note(ad_ref_String(x)); return x; }
rust::String const & c_echo_ref_String(rust::String const & x, std::int32_t k) { note(ck_ref_String(x, k) ? ad_ref_String(x) : 1); return x; }
bool c_mix_ref_String(std::uint8_t a, rust::String const & x, double b, std::int32_t k, rust::String const & y, std::uint16_t c) { return a == 200 && ck_ref_String(x, k) && b == -1.5 && ck_ref_String(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_String(rust::String const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_String(x, k); }
bool c_cb_ref_String(rust::Fn<rust::String const &(rust::String const &, std::int32_t)> f, std::int32_t k) { rust::String const & y = f(mk_ref_String(k), k); return ck_ref_String(y, k); }
std::int32_t c_run_ref_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::String const & x = mk_ref_String(k); auto a = ad_ref_String(x); if (!r_take_ref_String(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::String const & x = r_make_ref_String(Z, k); return ck_ref_String(x, k) && (vk_addr_c09b == ad_ref_String(x)) ? 0 : 13; }
 case 2: { rust::String const & x = r_try_ref_String(Z, k, false); return ck_ref_String(x, k) && (vk_addr_c09b == ad_ref_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::String const & x = mk_ref_String(k); auto a = ad_ref_String(x); rust::String const & y = r_echo_ref_String(x, k); return vk_addr_c09b == a && ad_ref_String(y) == a && ck_ref_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_String(200, mk_ref_String(k), -1.5, k, mk_ref_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::String const & x = mk_ref_String(k); return o.r_m_ref_String(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_S2(S2 const & x, std::int32_t k) { note(ad_ref_S2(x)); if (!ck_ref_S2(x, k)) return false; return true; }
S2 const & c_make_ref_S2(std::uint8_t const &, std::int32_t k) { S2 const & x = mk_ref_S2(k); note(ad_ref_S2(x)); return x; }
S2 const & c_try_ref_S2(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S2 const & x = mk_ref_S2(k); note(ad_ref_S2(x)); return x; }
S2 const & c_echo_ref_S2(S2 const & x, std::int32_t k) { note(ck_ref_S2(x, k) ? ad_ref_S2(x) : 1); return x; }
bool c_mix_ref_S2(std::uint8_t a, S2 const & x, double b, std::int32_t k, S2 const & y, std::uint16_t c) { return a == 200 && ck_ref_S2(x, k) && b == -1.5 && ck_ref_S2(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_S2(S2 const & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_ref_S2(x, k); }
bool c_cb_ref_S2(rust::Fn<S2 const &(S2 const &, std::int32_t)> f, std::int32_t k) { S2 const & y = f(mk_ref_S2(k), k); return ck_ref_S2(y, k); }
std::int32_t c_run_ref_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S2 const & x = mk_ref_S2(k); auto a = ad_ref_S2(x); if (!r_take_ref_S2(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { S2 const & x = r_make_ref_S2(Z, k); return ck_ref_S2(x, k) && (vk_addr_c09b == ad_ref_S2(x)) ? 0 : 13; }
 case 2: { S2 const & x = r_try_ref_S2(Z, k, false); return ck_ref_S2(x, k) && (vk_addr_c09b == ad_ref_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_S2(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S2 const & x = mk_ref_S2(k); auto a = ad_ref_S2(x); S2 const & y = r_echo_ref_S2(x, k); return vk_addr_c09b == a && ad_ref_S2(y) == a && ck_ref_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_S2(200, mk_ref_S2(k), -1.5, k, mk_ref_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S2 const & x = mk_ref_S2(k); return o.r_m_ref_S2(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_S7(S7 const & x, std::int32_t k) { note(ad_ref_S7(x)); if (!ck_ref_S7(x, k)) return false; return true; }
S7 const & c_make_ref_S7(std::uint8_t const &, std::int32_t k) { S7 const & x = mk_ref_S7(k); note(ad_ref_S7(x)); return x; }
S7 const & c_try_ref_S7(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S7 const & x = mk_ref_S7(k); note(ad_ref_S7(x)); return x; }
S7 const & c_echo_ref_S7(S7 const & x, std::int32_t k) { note(ck_ref_S7(x, k) ? ad_ref_S7(x) : 1); return x; }
bool c_mix_ref_S7(std::uint8_t a, S7 const & x, double b, std::int32_t k, S7 const & y, std::uint16_t c) { return a == 200 && ck_ref_S7(x, k) && b == -1.5 && ck_ref_S7(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_S7(S7 const & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_ref_S7(x, k); }
bool c_cb_ref_S7(rust::Fn<S7 const &(S7 const &, std::int32_t)> f, std::int32_t k) { S7 const & y = f(mk_ref_S7(k), k); return ck_ref_S7(y, k); }
std::int32_t c_run_ref_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S7 const & x = mk_ref_S7(k); auto a = ad_ref_S7(x); if (!r_take_ref_S7(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { S7 const & x = r_make_ref_S7(Z, k); return ck_ref_S7(x, k) && (vk_addr_c09b == ad_ref_S7(x)) ? 0 : 13; }
 case 2: { S7 const & x = r_try_ref_S7(Z, k, false); return ck_ref_S7(x, k) && (vk_addr_c09b == ad_ref_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_S7(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S7 const & x = mk_ref_S7(k); auto a = ad_ref_S7(x); S7 const & y = r_echo_ref_S7(x, k); return vk_addr_c09b == a && ad_ref_S7(y) == a && ck_ref_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_S7(200, mk_ref_S7(k), -1.5, k, mk_ref_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S7 const & x = mk_ref_S7(k); return o.r_m_ref_S7(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_RObj(RObj const & x, std::int32_t k) { note(ad_ref_RObj(x)); if (!ck_ref_RObj(x, k)) return false; return true; }
RObj const & c_make_ref_RObj(std::uint8_t const &, std::int32_t k) { RObj const & x = mk_ref_RObj(k); note(ad_ref_RObj(x)); return x; }
RObj const & c_try_ref_RObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); RObj const & x = mk_ref_RObj(k); note(ad_ref_RObj(x)); return x; }
RObj const & c_echo_ref_RObj(RObj const & x, std::int32_t k) { note(ck_ref_RObj(x, k) ? ad_ref_RObj(x) : 1); return x; }
bool c_mix_ref_RObj(std::uint8_t a, RObj const & x, double b, std::int32_t k, RObj const & y, std::uint16_t c) { return a == 200 && ck_ref_RObj(x, k) && b == -1.5 && ck_ref_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_RObj(RObj const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_RObj(x, k); }
bool c_cb_ref_RObj(rust::Fn<RObj const &(RObj const &, std::int32_t)> f, std::int32_t k) { RObj const & y = f(mk_ref_RObj(k), k); return ck_ref_RObj(y, k); }
std::int32_t c_run_ref_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { RObj const & x = mk_ref_RObj(k); auto a = ad_ref_RObj(x); if (!r_take_ref_RObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { RObj const & x = r_make_ref_RObj(Z, k); return ck_ref_RObj(x, k) && (vk_addr_c09b == ad_ref_RObj(x)) ? 0 : 13; }
 case 2: { RObj const & x = r_try_ref_RObj(Z, k, false); return ck_ref_RObj(x, k) && (vk_addr_c09b == ad_ref_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { RObj const & x = mk_ref_RObj(k); auto a = ad_ref_RObj(x); RObj const & y = r_echo_ref_RObj(x, k); return vk_addr_c09b == a && ad_ref_RObj(y) == a && ck_ref_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_RObj(200, mk_ref_RObj(k), -1.5, k, mk_ref_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; RObj const & x = mk_ref_RObj(k); return o.r_m_ref_RObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_CObj(CObj const & x, std::int32_t k) { note(ad_ref_CObj(x)); if (!ck_ref_CObj(x, k)) return false; return true; }
CObj const & c_make_ref_CObj(std::uint8_t const &, std::int32_t k) { CObj const & x = mk_ref_CObj(k); note(ad_ref_CObj(x)); return x; }
CObj const & c_try_ref_CObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); CObj const & x = mk_ref_CObj(k); note(ad_ref_CObj(x)); return x; }
CObj const & c_echo_ref_CObj(CObj const & x, std::int32_t k) { note(ck_ref_CObj(x, k) ? ad_ref_CObj(x) : 1); return x; }
bool c_mix_ref_CObj(std::uint8_t a, CObj const & x, double b, std::int32_t k, CObj const & y, std::uint16_t c) { return a == 200 && ck_ref_CObj(x, k) && b == -1.5 && ck_ref_CObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_CObj(CObj const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_CObj(x, k); }
bool c_cb_ref_CObj(rust::Fn<CObj const &(CObj const &, std::int32_t)> f, std::int32_t k) { CObj const & y = f(mk_ref_CObj(k), k); return ck_ref_CObj(y, k); }
std::int32_t c_run_ref_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { CObj const & x = mk_ref_CObj(k); auto a = ad_ref_CObj(x); if (!r_take_ref_CObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { CObj const & x = r_make_ref_CObj(Z, k); return ck_ref_CObj(x, k) && (vk_addr_c09b == ad_ref_CObj(x)) ? 0 : 13; }
 case 2: { CObj const & x = r_try_ref_CObj(Z, k, false); return ck_ref_CObj(x, k) && (vk_addr_c09b == ad_ref_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { CObj const & x = mk_ref_CObj(k); auto a = ad_ref_CObj(x); CObj const & y = r_echo_ref_CObj(x, k); return vk_addr_c09b == a && ad_ref_CObj(y) == a && ck_ref_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_CObj(200, mk_ref_CObj(k), -1.5, k, mk_ref_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; CObj const & x = mk_ref_CObj(k); return o.r_m_ref_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_CxxString(std::string const & x, std::int32_t k) { note(ad_ref_CxxString(x)); if (!ck_ref_CxxString(x, k)) return false; return true; }
std::string const & c_make_ref_CxxString(std::uint8_t const &, std::int32_t k) { std::string const & x = mk_ref_CxxString(k); note(ad_ref_CxxString(x)); return x; }
std::string const & c_try_ref_CxxString(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::string const & x = mk_ref_CxxString(k); note(ad_ref_CxxString(x)); return x; }
std::string const & c_echo_ref_CxxString(std::string const & x, std::int32_t k) { note(ck_ref_CxxString(x, k) ? ad_ref_CxxString(x) : 1); return x; }
bool c_mix_ref_CxxString(std::uint8_t a, std::string const & x, double b, std::int32_t k, std::string const & y, std::uint16_t c) { return a == 200 && ck_ref_CxxString(x, k) && b == -1.5 && ck_ref_CxxString(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_CxxString(std::string const & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_ref_CxxString(x, k); }
bool c_cb_ref_CxxString(rust::Fn<std::string const &(std::string const &, std::int32_t)> f, std::int32_t k) { std::string const & y = f(mk_ref_CxxString(k), k); return ck_ref_CxxString(y, k); }
std::int32_t c_run_ref_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::string const & x = mk_ref_CxxString(k); auto a = ad_ref_CxxString(x); if (!r_take_ref_CxxString(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::string const & x = r_make_ref_CxxString(Z, k); return ck_ref_CxxString(x, k) && (vk_addr_c09b == ad_ref_CxxString(x)) ? 0 : 13; }
 case 2: { std::string const & x = r_try_ref_CxxString(Z, k, false); return ck_ref_CxxString(x, k) && (vk_addr_c09b == ad_ref_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_CxxString(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::string const & x = mk_ref_CxxString(k); auto a = ad_ref_CxxString(x); std::string const & y = r_echo_ref_CxxString(x, k); return vk_addr_c09b == a && ad_ref_CxxString(y) == a && ck_ref_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_CxxString(200, mk_ref_CxxString(k), -1.5, k, mk_ref_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::string const & x = mk_ref_CxxString(k); return o.r_m_ref_CxxString(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_CxxVector_u8(std::vector<std::uint8_t> const & x, std::int32_t k) { note(ad_ref_CxxVector_u8(x)); if (!ck_ref_CxxVector_u8(x, k)) return false; return true; }
std::vector<std::uint8_t> const & c_make_ref_CxxVector_u8(std::uint8_t const &, std::int32_t k) { std::vector<std::uint8_t> const & x = mk_ref_CxxVector_u8(k); note(ad_ref_CxxVector_u8(x)); return x; }
std::vector<std::uint8_t> const & c_try_ref_CxxVector_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::vector<std::uint8_t> const & x = mk_ref_CxxVector_u8(k); note(ad_ref_CxxVector_u8(x)); return x; }
std::vector<std::uint8_t> const & c_echo_ref_CxxVector_u8(std::vector<std::uint8_t> const & x, std::int32_t k) { note(ck_ref_CxxVector_u8(x, k) ? ad_ref_CxxVector_u8(x) : 1); return x; }
bool c_mix_ref_CxxVector_u8(std::uint8_t a, std::vector<std::uint8_t> const & x, double b, std::int32_t k, std::vector<std::uint8_t> const & y, std::uint16_t c) { return a == 200 && ck_ref_CxxVector_u8(x, k) && b == -1.5 && ck_ref_CxxVector_u8(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_CxxVector_u8(std::vector<std::uint8_t> const & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_ref_CxxVector_u8(x, k); }
bool c_cb_ref_CxxVector_u8(rust::Fn<std::vector<std::uint8_t> const &(std::vector<std::uint8_t> const &, std::int32_t)> f, std::int32_t k) { std::vector<std::uint8_t> const & y = f(mk_ref_CxxVector_u8(k), k); return ck_ref_CxxVector_u8(y, k); }
std::int32_t c_run_ref_CxxVector_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::vector<std::uint8_t> const & x = mk_ref_CxxVector_u8(k); auto a = ad_ref_CxxVector_u8(x); if (!r_take_ref_CxxVector_u8(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::vector<std::uint8_t> const & x = r_make_ref_CxxVector_u8(Z, k); return ck_ref_CxxVector_u8(x, k) && (vk_addr_c09b == ad_ref_CxxVector_u8(x)) ? 0 : 13; }
 case 2: { std::vector<std::uint8_t> const & x = r_try_ref_CxxVector_u8(Z, k, false); return ck_ref_CxxVector_u8(x, k) && (vk_addr_c09b == ad_ref_CxxVector_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_CxxVector_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::vector<std::uint8_t> const & x = mk_ref_CxxVector_u8(k); auto a = ad_ref_CxxVector_u8(x); std::vector<std::uint8_t> const & y = r_echo_ref_CxxVector_u8(x, k); return vk_addr_c09b == a && ad_ref_CxxVector_u8(y) == a && ck_ref_CxxVector_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_CxxVector_u8(200, mk_ref_CxxVector_u8(k), -1.5, k, mk_ref_CxxVector_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::vector<std::uint8_t> const & x = mk_ref_CxxVector_u8(k); return o.r_m_ref_CxxVector_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k) { note(ad_ref_CxxVector_CxxString(x)); if (!ck_ref_CxxVector_CxxString(x, k)) return false; return true; }
std::vector<std::string> const & c_make_ref_CxxVector_CxxString(std::uint8_t const &, std::int32_t k) { std::vector<std::string> const & x = mk_ref_CxxVector_CxxString(k); note(ad_ref_CxxVector_CxxString(x)); return x; }
std::vector<std::string> const & c_try_ref_CxxVector_CxxString(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::vector<std::string> const & x = mk_ref_CxxVector_CxxString(k); note(ad_ref_CxxVector_CxxString(x)); return x; }
std::vector<std::string> const & c_echo_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k) { note(ck_ref_CxxVector_CxxString(x, k) ? ad_ref_CxxVector_CxxString(x) : 1); return x; }
bool c_mix_ref_CxxVector_CxxString(std::uint8_t a, std::vector<std::string> const & x, double b, std::int32_t k, std::vector<std::string> const & y, std::uint16_t c) { return a == 200 && ck_ref_CxxVector_CxxString(x, k) && b == -1.5 && ck_ref_CxxVector_CxxString(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_CxxVector_CxxString(x, k); }
bool c_cb_ref_CxxVector_CxxString(rust::Fn<std::vector<std::string> const &(std::vector<std::string> const &, std::int32_t)> f, std::int32_t k) { std::vector<std::string> const & y = f(mk_ref_CxxVector_CxxString(k), k); return ck_ref_CxxVector_CxxString(y, k); }
std::int32_t c_run_ref_CxxVector_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::vector<std::string> const & x = mk_ref_CxxVector_CxxString(k); auto a = ad_ref_CxxVector_CxxString(x); if (!r_take_ref_CxxVector_CxxString(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::vector<std::string> const & x = r_make_ref_CxxVector_CxxString(Z, k); return ck_ref_CxxVector_CxxString(x, k) && (vk_addr_c09b == ad_ref_CxxVector_CxxString(x)) ? 0 : 13; }
 case 2: { std::vector<std::string> const & x = r_try_ref_CxxVector_CxxString(Z, k, false); return ck_ref_CxxVector_CxxString(x, k) && (vk_addr_c09b == ad_ref_CxxVector_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_CxxVector_CxxString(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::vector<std::string> const & x = mk_ref_CxxVector_CxxString(k); auto a = ad_ref_CxxVector_CxxString(x); std::vector<std::string> const & y = r_echo_ref_CxxVector_CxxString(x, k); return vk_addr_c09b == a && ad_ref_CxxVector_CxxString(y) == a && ck_ref_CxxVector_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_CxxVector_CxxString(200, mk_ref_CxxVector_CxxString(k), -1.5, k, mk_ref_CxxVector_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::vector<std::string> const & x = mk_ref_CxxVector_CxxString(k); return o.r_m_ref_CxxVector_CxxString(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k) { note(ad_ref_Vec_u8(x)); if (!ck_ref_Vec_u8(x, k)) return false; return true; }
rust::Vec<std::uint8_t> const & c_make_ref_Vec_u8(std::uint8_t const &, std::int32_t k) { rust::Vec<std::uint8_t> const & x = mk_ref_Vec_u8(k); note(ad_ref_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> const & c_try_ref_Vec_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<std::uint8_t> const & x = mk_ref_Vec_u8(k); note(ad_ref_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> const & c_echo_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k) { note(ck_ref_Vec_u8(x, k) ? ad_ref_Vec_u8(x) : 1); return x; }
bool c_mix_ref_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> const & x, double b, std::int32_t k, rust::Vec<std::uint8_t> const & y, std::uint16_t c) { return a == 200 && ck_ref_Vec_u8(x, k) && b == -1.5 && ck_ref_Vec_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_Vec_u8(x, k); }
bool c_cb_ref_Vec_u8(rust::Fn<rust::Vec<std::uint8_t> const &(rust::Vec<std::uint8_t> const &, std::int32_t)> f, std::int32_t k) { rust::Vec<std::uint8_t> const & y = f(mk_ref_Vec_u8(k), k); return ck_ref_Vec_u8(y, k); }
std::int32_t c_run_ref_Vec_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<std::uint8_t> const & x = mk_ref_Vec_u8(k); auto a = ad_ref_Vec_u8(x); if (!r_take_ref_Vec_u8(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<std::uint8_t> const & x = r_make_ref_Vec_u8(Z, k); return ck_ref_Vec_u8(x, k) && (vk_addr_c09b == ad_ref_Vec_u8(x)) ? 0 : 13; }
 case 2: { rust::Vec<std::uint8_t> const & x = r_try_ref_Vec_u8(Z, k, false); return ck_ref_Vec_u8(x, k) && (vk_addr_c09b == ad_ref_Vec_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_Vec_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<std::uint8_t> const & x = mk_ref_Vec_u8(k); auto a = ad_ref_Vec_u8(x); rust::Vec<std::uint8_t> const & y = r_echo_ref_Vec_u8(x, k); return vk_addr_c09b == a && ad_ref_Vec_u8(y) == a && ck_ref_Vec_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_Vec_u8(200, mk_ref_Vec_u8(k), -1.5, k, mk_ref_Vec_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<std::uint8_t> const & x = mk_ref_Vec_u8(k); return o.r_m_ref_Vec_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_Vec_String(rust::Vec<rust::String> const & x, std::int32_t k) { note(ad_ref_Vec_String(x)); if (!ck_ref_Vec_String(x, k)) return false; return true; }
rust::Vec<rust::String> const & c_make_ref_Vec_String(std::uint8_t const &, std::int32_t k) { rust::Vec<rust::String> const & x = mk_ref_Vec_String(k); note(ad_ref_Vec_String(x)); return x; }
rust::Vec<rust::String> const & c_try_ref_Vec_String(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<rust::String> const & x = mk_ref_Vec_String(k); note(ad_ref_Vec_String(x)); return x; }
rust::Vec<rust::String> const & c_echo_ref_Vec_String(rust::Vec<rust::String> const & x, std::int32_t k) { note(ck_ref_Vec_String(x, k) ? ad_ref_Vec_String(x) : 1); return x; }
bool c_mix_ref_Vec_String(std::uint8_t a, rust::Vec<rust::String> const & x, double b, std::int32_t k, rust::Vec<rust::String> const & y, std::uint16_t c) { return a == 200 && ck_ref_Vec_String(x, k) && b == -1.5 && ck_ref_Vec_String(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_Vec_String(rust::Vec<rust::String> const & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_ref_Vec_String(x, k); }
bool c_cb_ref_Vec_String(rust::Fn<rust::Vec<rust::String> const &(rust::Vec<rust::String> const &, std::int32_t)> f, std::int32_t k) { rust::Vec<rust::String> const & y = f(mk_ref_Vec_String(k), k); return ck_ref_Vec_String(y, k); }
std::int32_t c_run_ref_Vec_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<rust::String> const & x = mk_ref_Vec_String(k); auto a = ad_ref_Vec_String(x); if (!r_take_ref_Vec_String(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<rust::String> const & x = r_make_ref_Vec_String(Z, k); return ck_ref_Vec_String(x, k) && (vk_addr_c09b == ad_ref_Vec_String(x)) ? 0 : 13; }
 case 2: { rust::Vec<rust::String> const & x = r_try_ref_Vec_String(Z, k, false); return ck_ref_Vec_String(x, k) && (vk_addr_c09b == ad_ref_Vec_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_Vec_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<rust::String> const & x = mk_ref_Vec_String(k); auto a = ad_ref_Vec_String(x); rust::Vec<rust::String> const & y = r_echo_ref_Vec_String(x, k); return vk_addr_c09b == a && ad_ref_Vec_String(y) == a && ck_ref_Vec_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_Vec_String(200, mk_ref_Vec_String(k), -1.5, k, mk_ref_Vec_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<rust::String> const & x = mk_ref_Vec_String(k); return o.r_m_ref_Vec_String(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_Vec_RObj(rust::Vec<RObj> const & x, std::int32_t k) { note(ad_ref_Vec_RObj(x)); if (!ck_ref_Vec_RObj(x, k)) return false; return true; }
rust::Vec<RObj> const & c_make_ref_Vec_RObj(std::uint8_t const &, std::int32_t k) { rust::Vec<RObj> const & x = mk_ref_Vec_RObj(k); note(ad_ref_Vec_RObj(x)); return x; }
rust::Vec<RObj> const & c_try_ref_Vec_RObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<RObj> const & x = mk_ref_Vec_RObj(k); note(ad_ref_Vec_RObj(x)); return x; }
rust::Vec<RObj> const & c_echo_ref_Vec_RObj(rust::Vec<RObj> const & x, std::int32_t k) { note(ck_ref_Vec_RObj(x, k) ? ad_ref_Vec_RObj(x) : 1); return x; }
bool c_mix_ref_Vec_RObj(std::uint8_t a, rust::Vec<RObj> const & x, double b, std::int32_t k, rust::Vec<RObj> const & y, std::uint16_t c) { return a == 200 && ck_ref_Vec_RObj(x, k) && b == -1.5 && ck_ref_Vec_RObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_Vec_RObj(rust::Vec<RObj> const & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_ref_Vec_RObj(x, k); }
bool c_cb_ref_Vec_RObj(rust::Fn<rust::Vec<RObj> const &(rust::Vec<RObj> const &, std::int32_t)> f, std::int32_t k) { rust::Vec<RObj> const & y = f(mk_ref_Vec_RObj(k), k); return ck_ref_Vec_RObj(y, k); }
std::int32_t c_run_ref_Vec_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<RObj> const & x = mk_ref_Vec_RObj(k); auto a = ad_ref_Vec_RObj(x); if (!r_take_ref_Vec_RObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Vec<RObj> const & x = r_make_ref_Vec_RObj(Z, k); return ck_ref_Vec_RObj(x, k) && (vk_addr_c09b == ad_ref_Vec_RObj(x)) ? 0 : 13; }
 case 2: { rust::Vec<RObj> const & x = r_try_ref_Vec_RObj(Z, k, false); return ck_ref_Vec_RObj(x, k) && (vk_addr_c09b == ad_ref_Vec_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_Vec_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<RObj> const & x = mk_ref_Vec_RObj(k); auto a = ad_ref_Vec_RObj(x); rust::Vec<RObj> const & y = r_echo_ref_Vec_RObj(x, k); return vk_addr_c09b == a && ad_ref_Vec_RObj(y) == a && ck_ref_Vec_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_Vec_RObj(200, mk_ref_Vec_RObj(k), -1.5, k, mk_ref_Vec_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Vec<RObj> const & x = mk_ref_Vec_RObj(k); return o.r_m_ref_Vec_RObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k) { note(ad_ref_Box_RObj(x)); if (!ck_ref_Box_RObj(x, k)) return false; return true; }
rust::Box<RObj> const & c_make_ref_Box_RObj(std::uint8_t const &, std::int32_t k) { rust::Box<RObj> const & x = mk_ref_Box_RObj(k); note(ad_ref_Box_RObj(x)); return x; }
rust::Box<RObj> const & c_try_ref_Box_RObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<RObj> const & x = mk_ref_Box_RObj(k); note(ad_ref_Box_RObj(x)); return x; }
rust::Box<RObj> const & c_echo_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k) { note(ck_ref_Box_RObj(x, k) ? ad_ref_Box_RObj(x) : 1); return x; }
bool c_mix_ref_Box_RObj(std::uint8_t a, rust::Box<RObj> const & x, double b, std::int32_t k, rust::Box<RObj> const & y, std::uint16_t c) { return a == 200 && ck_ref_Box_RObj(x, k) && b == -1.5 && ck_ref_Box_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_Box_RObj(x, k); }
bool c_cb_ref_Box_RObj(rust::Fn<rust::Box<RObj> const &(rust::Box<RObj> const &, std::int32_t)> f, std::int32_t k) { rust::Box<RObj> const & y = f(mk_ref_Box_RObj(k), k); return ck_ref_Box_RObj(y, k); }
std::int32_t c_run_ref_Box_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<RObj> const & x = mk_ref_Box_RObj(k); auto a = ad_ref_Box_RObj(x); if (!r_take_ref_Box_RObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { rust::Box<RObj> const & x = r_make_ref_Box_RObj(Z, k); return ck_ref_Box_RObj(x, k) && (vk_addr_c09b == ad_ref_Box_RObj(x)) ? 0 : 13; }
 case 2: { rust::Box<RObj> const & x = r_try_ref_Box_RObj(Z, k, false); return ck_ref_Box_RObj(x, k) && (vk_addr_c09b == ad_ref_Box_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_Box_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<RObj> const & x = mk_ref_Box_RObj(k); auto a = ad_ref_Box_RObj(x); rust::Box<RObj> const & y = r_echo_ref_Box_RObj(x, k); return vk_addr_c09b == a && ad_ref_Box_RObj(y) == a && ck_ref_Box_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_Box_RObj(200, mk_ref_Box_RObj(k), -1.5, k, mk_ref_Box_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Box<RObj> const & x = mk_ref_Box_RObj(k); return o.r_m_ref_Box_RObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k) { note(ad_ref_UniquePtr_CObj(x)); if (!ck_ref_UniquePtr_CObj(x, k)) return false; return true; }
std::unique_ptr<CObj> const & c_make_ref_UniquePtr_CObj(std::uint8_t const &, std::int32_t k) { std::unique_ptr<CObj> const & x = mk_ref_UniquePtr_CObj(k); note(ad_ref_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> const & c_try_ref_UniquePtr_CObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> const & x = mk_ref_UniquePtr_CObj(k); note(ad_ref_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> const & c_echo_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k) { note(ck_ref_UniquePtr_CObj(x, k) ? ad_ref_UniquePtr_CObj(x) : 1); return x; }
bool c_mix_ref_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> const & x, double b, std::int32_t k, std::unique_ptr<CObj> const & y, std::uint16_t c) { return a == 200 && ck_ref_UniquePtr_CObj(x, k) && b == -1.5 && ck_ref_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_UniquePtr_CObj(x, k); }
bool c_cb_ref_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj> const &(std::unique_ptr<CObj> const &, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> const & y = f(mk_ref_UniquePtr_CObj(k), k); return ck_ref_UniquePtr_CObj(y, k); }
std::int32_t c_run_ref_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> const & x = mk_ref_UniquePtr_CObj(k); auto a = ad_ref_UniquePtr_CObj(x); if (!r_take_ref_UniquePtr_CObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::unique_ptr<CObj> const & x = r_make_ref_UniquePtr_CObj(Z, k); return ck_ref_UniquePtr_CObj(x, k) && (vk_addr_c09b == ad_ref_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> const & x = r_try_ref_UniquePtr_CObj(Z, k, false); return ck_ref_UniquePtr_CObj(x, k) && (vk_addr_c09b == ad_ref_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_UniquePtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> const & x = mk_ref_UniquePtr_CObj(k); auto a = ad_ref_UniquePtr_CObj(x); std::unique_ptr<CObj> const & y = r_echo_ref_UniquePtr_CObj(x, k); return vk_addr_c09b == a && ad_ref_UniquePtr_CObj(y) == a && ck_ref_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_UniquePtr_CObj(200, mk_ref_UniquePtr_CObj(k), -1.5, k, mk_ref_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<CObj> const & x = mk_ref_UniquePtr_CObj(k); return o.r_m_ref_UniquePtr_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & x, std::int32_t k) { note(ad_ref_SharedPtr_CObj(x)); if (!ck_ref_SharedPtr_CObj(x, k)) return false; return true; }
std::shared_ptr<CObj> const & c_make_ref_SharedPtr_CObj(std::uint8_t const &, std::int32_t k) { std::shared_ptr<CObj> const & x = mk_ref_SharedPtr_CObj(k); note(ad_ref_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> const & c_try_ref_SharedPtr_CObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> const & x = mk_ref_SharedPtr_CObj(k); note(ad_ref_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> const & c_echo_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & x, std::int32_t k) { note(ck_ref_SharedPtr_CObj(x, k) ? ad_ref_SharedPtr_CObj(x) : 1); return x; }
bool c_mix_ref_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> const & x, double b, std::int32_t k, std::shared_ptr<CObj> const & y, std::uint16_t c) { return a == 200 && ck_ref_SharedPtr_CObj(x, k) && b == -1.5 && ck_ref_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_ref_SharedPtr_CObj(x, k); }
bool c_cb_ref_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj> const &(std::shared_ptr<CObj> const &, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> const & y = f(mk_ref_SharedPtr_CObj(k), k); return ck_ref_SharedPtr_CObj(y, k); }
std::int32_t c_run_ref_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> const & x = mk_ref_SharedPtr_CObj(k); auto a = ad_ref_SharedPtr_CObj(x); if (!r_take_ref_SharedPtr_CObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::shared_ptr<CObj> const & x = r_make_ref_SharedPtr_CObj(Z, k); return ck_ref_SharedPtr_CObj(x, k) && (vk_addr_c09b == ad_ref_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> const & x = r_try_ref_SharedPtr_CObj(Z, k, false); return ck_ref_SharedPtr_CObj(x, k) && (vk_addr_c09b == ad_ref_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_SharedPtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> const & x = mk_ref_SharedPtr_CObj(k); auto a = ad_ref_SharedPtr_CObj(x); std::shared_ptr<CObj> const & y = r_echo_ref_SharedPtr_CObj(x, k); return vk_addr_c09b == a && ad_ref_SharedPtr_CObj(y) == a && ck_ref_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_SharedPtr_CObj(200, mk_ref_SharedPtr_CObj(k), -1.5, k, mk_ref_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<CObj> const & x = mk_ref_SharedPtr_CObj(k); return o.r_m_ref_SharedPtr_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & x, std::int32_t k) { note(ad_ref_WeakPtr_CObj(x)); if (!ck_ref_WeakPtr_CObj(x, k)) return false; return true; }
std::weak_ptr<CObj> const & c_make_ref_WeakPtr_CObj(std::uint8_t const &, std::int32_t k) { std::weak_ptr<CObj> const & x = mk_ref_WeakPtr_CObj(k); note(ad_ref_WeakPtr_CObj(x)); return x; }
std::weak_ptr<CObj> const & c_try_ref_WeakPtr_CObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::weak_ptr<CObj> const & x = mk_ref_WeakPtr_CObj(k); note(ad_ref_WeakPtr_CObj(x)); return x; }
std::weak_ptr<CObj> const & c_echo_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & x, std::int32_t k) { note(ck_ref_WeakPtr_CObj(x, k) ? ad_ref_WeakPtr_CObj(x) : 1); return x; }
bool c_mix_ref_WeakPtr_CObj(std::uint8_t a, std::weak_ptr<CObj> const & x, double b, std::int32_t k, std::weak_ptr<CObj> const & y, std::uint16_t c) { return a == 200 && ck_ref_WeakPtr_CObj(x, k) && b == -1.5 && ck_ref_WeakPtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_ref_WeakPtr_CObj(x, k); }
bool c_cb_ref_WeakPtr_CObj(rust::Fn<std::weak_ptr<CObj> const &(std::weak_ptr<CObj> const &, std::int32_t)> f, std::int32_t k) { std::weak_ptr<CObj> const & y = f(mk_ref_WeakPtr_CObj(k), k); return ck_ref_WeakPtr_CObj(y, k); }
std::int32_t c_run_ref_WeakPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::weak_ptr<CObj> const & x = mk_ref_WeakPtr_CObj(k); auto a = ad_ref_WeakPtr_CObj(x); if (!r_take_ref_WeakPtr_CObj(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { std::weak_ptr<CObj> const & x = r_make_ref_WeakPtr_CObj(Z, k); return ck_ref_WeakPtr_CObj(x, k) && (vk_addr_c09b == ad_ref_WeakPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::weak_ptr<CObj> const & x = r_try_ref_WeakPtr_CObj(Z, k, false); return ck_ref_WeakPtr_CObj(x, k) && (vk_addr_c09b == ad_ref_WeakPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_WeakPtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::weak_ptr<CObj> const & x = mk_ref_WeakPtr_CObj(k); auto a = ad_ref_WeakPtr_CObj(x); std::weak_ptr<CObj> const & y = r_echo_ref_WeakPtr_CObj(x, k); return vk_addr_c09b == a && ad_ref_WeakPtr_CObj(y) == a && ck_ref_WeakPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_WeakPtr_CObj(200, mk_ref_WeakPtr_CObj(k), -1.5, k, mk_ref_WeakPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::weak_ptr<CObj> const & x = mk_ref_WeakPtr_CObj(k); return o.r_m_ref_WeakPtr_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_Eu8(Eu8 const & x, std::int32_t k) { note(ad_ref_Eu8(x)); if (!ck_ref_Eu8(x, k)) return false; return true; }
Eu8 const & c_make_ref_Eu8(std::uint8_t const &, std::int32_t k) { Eu8 const & x = mk_ref_Eu8(k); note(ad_ref_Eu8(x)); return x; }
Eu8 const & c_try_ref_Eu8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Eu8 const & x = mk_ref_Eu8(k); note(ad_ref_Eu8(x)); return x; }
Eu8 const & c_echo_ref_Eu8(Eu8 const & x, std::int32_t k) { note(ck_ref_Eu8(x, k) ? ad_ref_Eu8(x) : 1); return x; }
bool c_mix_ref_Eu8(std::uint8_t a, Eu8 const & x, double b, std::int32_t k, Eu8 const & y, std::uint16_t c) { return a == 200 && ck_ref_Eu8(x, k) && b == -1.5 && ck_ref_Eu8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_Eu8(Eu8 const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_Eu8(x, k); }
bool c_cb_ref_Eu8(rust::Fn<Eu8 const &(Eu8 const &, std::int32_t)> f, std::int32_t k) { Eu8 const & y = f(mk_ref_Eu8(k), k); return ck_ref_Eu8(y, k); }
std::int32_t c_run_ref_Eu8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Eu8 const & x = mk_ref_Eu8(k); auto a = ad_ref_Eu8(x); if (!r_take_ref_Eu8(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { Eu8 const & x = r_make_ref_Eu8(Z, k); return ck_ref_Eu8(x, k) && (vk_addr_c09b == ad_ref_Eu8(x)) ? 0 : 13; }
 case 2: { Eu8 const & x = r_try_ref_Eu8(Z, k, false); return ck_ref_Eu8(x, k) && (vk_addr_c09b == ad_ref_Eu8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_Eu8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Eu8 const & x = mk_ref_Eu8(k); auto a = ad_ref_Eu8(x); Eu8 const & y = r_echo_ref_Eu8(x, k); return vk_addr_c09b == a && ad_ref_Eu8(y) == a && ck_ref_Eu8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_Eu8(200, mk_ref_Eu8(k), -1.5, k, mk_ref_Eu8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; Eu8 const & x = mk_ref_Eu8(k); return o.r_m_ref_Eu8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ref_TrivA(TrivA const & x, std::int32_t k) { note(ad_ref_TrivA(x)); if (!ck_ref_TrivA(x, k)) return false; return true; }
TrivA const & c_make_ref_TrivA(std::uint8_t const &, std::int32_t k) { TrivA const & x = mk_ref_TrivA(k); note(ad_ref_TrivA(x)); return x; }
TrivA const & c_try_ref_TrivA(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivA const & x = mk_ref_TrivA(k); note(ad_ref_TrivA(x)); return x; }
TrivA const & c_echo_ref_TrivA(TrivA const & x, std::int32_t k) { note(ck_ref_TrivA(x, k) ? ad_ref_TrivA(x) : 1); return x; }
bool c_mix_ref_TrivA(std::uint8_t a, TrivA const & x, double b, std::int32_t k, TrivA const & y, std::uint16_t c) { return a == 200 && ck_ref_TrivA(x, k) && b == -1.5 && ck_ref_TrivA(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_TrivA(TrivA const & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_ref_TrivA(x, k); }
bool c_cb_ref_TrivA(rust::Fn<TrivA const &(TrivA const &, std::int32_t)> f, std::int32_t k) { TrivA const & y = f(mk_ref_TrivA(k), k); return ck_ref_TrivA(y, k); }
std::int32_t c_run_ref_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivA const & x = mk_ref_TrivA(k); auto a = ad_ref_TrivA(x); if (!r_take_ref_TrivA(x, k)) return 10; if (vk_addr_c09b != a) return 11; return 0; }
 case 1: { TrivA const & x = r_make_ref_TrivA(Z, k); return ck_ref_TrivA(x, k) && (vk_addr_c09b == ad_ref_TrivA(x)) ? 0 : 13; }
 case 2: { TrivA const & x = r_try_ref_TrivA(Z, k, false); return ck_ref_TrivA(x, k) && (vk_addr_c09b == ad_ref_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_TrivA(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivA const & x = mk_ref_TrivA(k); auto a = ad_ref_TrivA(x); TrivA const & y = r_echo_ref_TrivA(x, k); return vk_addr_c09b == a && ad_ref_TrivA(y) == a && ck_ref_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_TrivA(200, mk_ref_TrivA(k), -1.5, k, mk_ref_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; TrivA const & x = mk_ref_TrivA(k); return o.r_m_ref_TrivA(x, k) ? 0 : 19; }
 }
 return -1; }
}
