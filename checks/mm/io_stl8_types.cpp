/**
 * This file was automatically generated by the ICG based on the file:
 * stl8_types.hh
 * This file contains database parameter declarations specific to the
 * data structures and enumerated types declared in the above file.
 * These database parameters are used by the Trick input and
 * data recording processors to gain access to important simulation
 * variable information.
 */

#define TRICK_IN_IOSRC
#include <stdlib.h>
#include "trick/MemoryManager.hh"
#include "trick/attributes.h"
#include "trick/parameter_types.h"
#include "trick/ClassSizeCheck.hh"
#include "trick/UnitsMap.hh"
#include "trick/checkpoint_stl.hh"
#include "stl8_types.hh"

extern "C" {

ATTRIBUTES attrU8[] = {
{"a", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"b", "long long", "1", "", "",
  "",
  15,TRICK_LONG_LONG, sizeof(long long), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"c", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  16, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d", "U8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  48, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrU8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrU8[3].type_name) , &attrU8[3], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrU8_c_intf() {
    init_attrU8() ;
}

size_t io_src_sizeof_U8() {
    return sizeof(U8) ;
}

void* io_src_allocate_U8(int num) {
    U8* temp = (U8*)calloc(num, sizeof(U8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) U8();
    }
    return (void*)temp;
}

void io_src_destruct_U8(void* address __attribute__((unused)), int num __attribute__((unused))) {
U8* temp = (U8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~U8();
    }
}

void io_src_delete_U8(void* address) {
    delete (U8*)address;
}

} //extern "C"

struct UnitsMapU8 {
    UnitsMapU8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("U8_a", "1") ;
        units_map_ptr->add_param("U8_b", "1") ;
        units_map_ptr->add_param("U8_c", "1") ;
        units_map_ptr->add_param("U8_d", "1") ;
    }
} umU8;

extern "C" {

ATTRIBUTES attrns8__V8[] = {
{"x", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"y", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

namespace ns8 {

void init_attrns8__V8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}
}

extern "C" {

void init_attrns8__V8_c_intf() {
    ns8::init_attrns8__V8() ;
}

size_t io_src_sizeof_ns8__V8() {
    return sizeof(ns8::V8) ;
}

void* io_src_allocate_ns8__V8(int num) {
    ns8::V8* temp = (ns8::V8*)calloc(num, sizeof(ns8::V8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) ns8::V8();
    }
    return (void*)temp;
}

void io_src_destruct_ns8__V8(void* address __attribute__((unused)), int num __attribute__((unused))) {
    using namespace ns8;
    ns8::V8* temp = (ns8::V8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~V8();
    }
}

void io_src_delete_ns8__V8(void* address) {
    delete (ns8::V8*)address;
}

} //extern "C"

struct UnitsMapns8__V8 {
    UnitsMapns8__V8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("V8_x", "1") ;
        units_map_ptr->add_param("V8_y", "1") ;
    }
} umns8__V8;

extern "C" {

ENUM_ATTR enumns8__Col8[] = {
{"ns8::C8_A", 0, 0x0},
{"ns8::C8_B", 7, 0x0},
{"ns8::C8_C", -2, 0x0},
{"", 0, 0x0}
};

} //extern "C"

extern "C" {

size_t io_src_sizeof_ns8__Col8( void ) {
    return sizeof(ns8::Col8);
}

} //extern "C"

extern "C" {

size_t get_stl_size_stl_S8_v_d(void* start_address);
void* get_stl_element_stl_S8_v_d(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_f(void* start_address);
void* get_stl_element_stl_S8_v_f(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_c(void* start_address);
void* get_stl_element_stl_S8_v_c(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_uc(void* start_address);
void* get_stl_element_stl_S8_v_uc(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_s(void* start_address);
void* get_stl_element_stl_S8_v_s(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_us(void* start_address);
void* get_stl_element_stl_S8_v_us(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_i(void* start_address);
void* get_stl_element_stl_S8_v_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ui(void* start_address);
void* get_stl_element_stl_S8_v_ui(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_l(void* start_address);
void* get_stl_element_stl_S8_v_l(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ul(void* start_address);
void* get_stl_element_stl_S8_v_ul(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ll(void* start_address);
void* get_stl_element_stl_S8_v_ll(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ull(void* start_address);
void* get_stl_element_stl_S8_v_ull(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_b(void* start_address);
void* get_stl_element_stl_S8_v_b(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_str(void* start_address);
void* get_stl_element_stl_S8_v_str(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_e(void* start_address);
void* get_stl_element_stl_S8_v_e(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_k(void* start_address);
void* get_stl_element_stl_S8_v_k(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ne(void* start_address);
void* get_stl_element_stl_S8_v_ne(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_w(void* start_address);
void* get_stl_element_stl_S8_v_w(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_u(void* start_address);
void* get_stl_element_stl_S8_v_u(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_v(void* start_address);
void* get_stl_element_stl_S8_v_v(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_in(void* start_address);
void* get_stl_element_stl_S8_v_in(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_up(void* start_address);
void* get_stl_element_stl_S8_v_up(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_dp(void* start_address);
void* get_stl_element_stl_S8_v_dp(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_ip(void* start_address);
void* get_stl_element_stl_S8_v_ip(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_sp(void* start_address);
void* get_stl_element_stl_S8_v_sp(void* start_address, size_t index);
size_t get_stl_size_stl_S8_d_d(void* start_address);
void* get_stl_element_stl_S8_d_d(void* start_address, size_t index);
size_t get_stl_size_stl_S8_d_str(void* start_address);
void* get_stl_element_stl_S8_d_str(void* start_address, size_t index);
size_t get_stl_size_stl_S8_a_i(void* start_address);
void* get_stl_element_stl_S8_a_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_a_str(void* start_address);
void* get_stl_element_stl_S8_a_str(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_v_i(void* start_address);
void* get_stl_element_stl_S8_v_v_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_v_v_i(void* start_address);
void* get_stl_element_stl_S8_v_v_v_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_l_i(void* start_address);
void* get_stl_element_stl_S8_v_l_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_p_istr(void* start_address);
void* get_stl_element_stl_S8_v_p_istr(void* start_address, size_t index);
size_t get_stl_size_stl_S8_a_v_i(void* start_address);
void* get_stl_element_stl_S8_a_v_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_a_i(void* start_address);
void* get_stl_element_stl_S8_v_a_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_k_i(void* start_address);
void* get_stl_element_stl_S8_v_k_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_q_i(void* start_address);
void* get_stl_element_stl_S8_v_q_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_v_pq_i(void* start_address);
void* get_stl_element_stl_S8_v_pq_i(void* start_address, size_t index);
size_t get_stl_size_stl_S8_d_m_v_str(void* start_address);
void* get_stl_element_stl_S8_d_m_v_str(void* start_address, size_t index);
ATTRIBUTES attrS8[] = {
{"v_d", "std::vector<double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<double>), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_f", "std::vector<float>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<float>), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_FLOAT, "float",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_c", "std::vector<char>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<char>), 0, 0, Language_CPP, 0,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_CHARACTER, "char",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_uc", "std::vector<unsigned char>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<unsigned char>), 0, 0, Language_CPP, 0,
  72, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_UNSIGNED_CHARACTER, "unsigned char",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_s", "std::vector<short>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<short>), 0, 0, Language_CPP, 0,
  96, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_SHORT, "short",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_us", "std::vector<unsigned short>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<unsigned short>), 0, 0, Language_CPP, 0,
  120, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_UNSIGNED_SHORT, "unsigned short",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_i", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  144, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ui", "std::vector<unsigned int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<unsigned int>), 0, 0, Language_CPP, 0,
  168, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_UNSIGNED_INTEGER, "unsigned int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_l", "std::vector<long>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<long>), 0, 0, Language_CPP, 0,
  192, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_LONG, "long",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ul", "std::vector<unsigned long>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<unsigned long>), 0, 0, Language_CPP, 0,
  216, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_UNSIGNED_LONG, "unsigned long",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ll", "std::vector<long long>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<long long>), 0, 0, Language_CPP, 0,
  240, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_LONG_LONG, "long long",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ull", "std::vector<unsigned long long>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<unsigned long long>), 0, 0, Language_CPP, 0,
  264, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_UNSIGNED_LONG_LONG, "unsigned long long",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_b", "std::vector<bool>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<bool>), 0, 0, Language_CPP, 0,
  288, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_BOOLEAN, "bool",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_str", "std::vector<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  328, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_e", "std::vector<MMColor>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<enum MMColor>), 0, 0, Language_CPP, 0,
  352, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_ENUMERATED, "MMColor",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_k", "std::vector<mmns::Kind>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<enum mmns::Kind>), 0, 0, Language_CPP, 0,
  376, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_ENUMERATED, "mmns::Kind",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ne", "std::vector<ns8::Col8>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<enum ns8::Col8>), 0, 0, Language_CPP, 0,
  400, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_ENUMERATED, "ns8::Col8",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_w", "std::vector<wchar_t>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<wchar_t>), 0, 0, Language_CPP, 0,
  424, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_WCHAR, "wchar_t",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_u", "std::vector<U8>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<U8>), 0, 0, Language_CPP, 0,
  448, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "U8",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_v", "std::vector<ns8::V8>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<ns8::V8>), 0, 0, Language_CPP, 0,
  472, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "ns8::V8",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_in", "std::vector<MMInner>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<MMInner>), 0, 0, Language_CPP, 0,
  496, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "MMInner",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_up", "std::vector<U8 *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<U8 *>), 0, 0, Language_CPP, 0,
  520, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "U8 *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_dp", "std::vector<double *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<double *>), 0, 0, Language_CPP, 0,
  544, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_NUMBER_OF_TYPES, "double *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_ip", "std::vector<MMInner *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<MMInner *>), 0, 0, Language_CPP, 0,
  568, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "MMInner *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_sp", "std::vector<std::string *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::basic_string<char> *>), 0, 0, Language_CPP, 0,
  592, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRING, "std::basic_string<char> *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l_i", "std::list<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<int>), 0, 0, Language_CPP, 0,
  616, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l_str", "std::list<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  640, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l_dp", "std::list<double *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<double *>), 0, 0, Language_CPP, 0,
  664, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_NUMBER_OF_TYPES, "double *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d_d", "std::deque<double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::deque<double>), 0, 0, Language_CPP, 0,
  688, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_DEQUE, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d_str", "std::deque<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::deque<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  768, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_DEQUE, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s_i", "std::set<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<int>), 0, 0, Language_CPP, 0,
  848, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s_str", "std::set<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  896, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ms_i", "std::multiset<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multiset<int>), 0, 0, Language_CPP, 0,
  944, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ms_str", "std::multiset<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multiset<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  992, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s_ig", "std::set<int, std::greater<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<int, std::greater<int> >), 0, 0, Language_CPP, 0,
  1040, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_id", "std::map<int, double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, double>), 0, 0, Language_CPP, 0,
  1088, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_stri", "std::map<std::string, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::basic_string<char>, int>), 0, 0, Language_CPP, 0,
  1136, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_strstr", "std::map<std::string, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::basic_string<char>, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  1184, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_iu", "std::map<int, U8>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, U8>), 0, 0, Language_CPP, 0,
  1232, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STRUCTURED, "U8",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_idp", "std::map<int, double *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, double *>), 0, 0, Language_CPP, 0,
  1280, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_NUMBER_OF_TYPES, "double *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_ei", "std::map<MMColor, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<enum MMColor, int>), 0, 0, Language_CPP, 0,
  1328, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mm_ii", "std::multimap<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<int, int>), 0, 0, Language_CPP, 0,
  1376, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mm_strstr", "std::multimap<std::string, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<std::basic_string<char>, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  1424, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_bc", "std::map<bool, char>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<bool, char>), 0, 0, Language_CPP, 0,
  1472, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_CHARACTER, "char",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_id", "std::pair<int, double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, double>), 0, 0, Language_CPP, 0,
  1520, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_stri", "std::pair<std::string, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::basic_string<char>, int>), 0, 0, Language_CPP, 0,
  1536, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_strstr", "std::pair<std::string, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::basic_string<char>, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  1576, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_pp", "std::pair<double *, U8 *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<double *, U8 *>), 0, 0, Language_CPP, 0,
  1640, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_NUMBER_OF_TYPES, "double *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"q_i", "std::queue<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::queue<int>), 0, 0, Language_CPP, 0,
  1656, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_QUEUE, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"q_str", "std::queue<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::queue<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  1736, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_QUEUE, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k_i", "std::stack<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<int>), 0, 0, Language_CPP, 0,
  1816, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k_str", "std::stack<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  1896, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pq_i", "std::priority_queue<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::priority_queue<int>), 0, 0, Language_CPP, 0,
  1976, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PRIORITY_QUEUE, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pq_str", "std::priority_queue<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::priority_queue<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  2008, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PRIORITY_QUEUE, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pq_ig", "std::priority_queue<int, std::vector<int>, std::greater<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::priority_queue<int, std::vector<int>, std::greater<int> >), 0, 0, Language_CPP, 0,
  2040, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PRIORITY_QUEUE, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"a_i", "std::array<int, 3>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::array<int, 3>), 0, 0, Language_CPP, 0,
  2072, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_ARRAY, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"a_str", "std::array<std::string, 2>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::array<std::basic_string<char>, 2>), 0, 0, Language_CPP, 0,
  2088, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_ARRAY, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_v_i", "std::vector<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<int> >), 0, 0, Language_CPP, 0,
  2152, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_v_v_i", "std::vector<std::vector<std::vector<int> > >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<std::vector<int> > >), 0, 0, Language_CPP, 0,
  2176, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<class std::vector<int> >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_l_i", "std::vector<std::list<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::list<int> >), 0, 0, Language_CPP, 0,
  2200, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::list<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l_s_str", "std::list<std::set<std::string> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<std::set<std::basic_string<char> > >), 0, 0, Language_CPP, 0,
  2224, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_STL, "std::set<class std::basic_string<char> >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s_v_i", "std::set<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<std::vector<int> >), 0, 0, Language_CPP, 0,
  2248, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ms_p_ii", "std::multiset<std::pair<int, int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multiset<std::pair<int, int> >), 0, 0, Language_CPP, 0,
  2296, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STL, "std::pair<int, int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_p_istr", "std::vector<std::pair<int, std::string> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::pair<int, std::basic_string<char> > >), 0, 0, Language_CPP, 0,
  2344, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::pair<int, std::basic_string<char> >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s_m_sd", "std::set<std::map<short, double> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<std::map<short, double> >), 0, 0, Language_CPP, 0,
  2368, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STL, "std::map<short, double>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_i_v_i", "std::map<int, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, std::vector<int> >), 0, 0, Language_CPP, 0,
  2416, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_p_ii_i", "std::map<std::pair<int, int>, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::pair<int, int>, int>), 0, 0, Language_CPP, 0,
  2464, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_p_p", "std::map<std::pair<int, int>, std::pair<int, int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::pair<int, int>, std::pair<int, int> >), 0, 0, Language_CPP, 0,
  2512, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::pair<int, int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_v_v", "std::map<std::vector<int>, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::vector<int>, std::vector<int> >), 0, 0, Language_CPP, 0,
  2560, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mm_i_v_i", "std::multimap<int, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<int, std::vector<int> >), 0, 0, Language_CPP, 0,
  2608, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mm_v_i_i", "std::multimap<std::vector<int>, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<std::vector<int>, int>), 0, 0, Language_CPP, 0,
  2656, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mm_p_v", "std::multimap<std::pair<int, int>, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<std::pair<int, int>, std::vector<int> >), 0, 0, Language_CPP, 0,
  2704, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_str_m", "std::map<std::string, std::map<int, std::string> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >), 0, 0, Language_CPP, 0,
  2752, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::map<int, class std::basic_string<char> >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_i_v", "std::pair<int, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, std::vector<int> >), 0, 0, Language_CPP, 0,
  2800, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_v_i", "std::pair<std::vector<int>, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::vector<int>, int>), 0, 0, Language_CPP, 0,
  2832, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_v_v", "std::pair<std::vector<int>, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::vector<int>, std::vector<int> >), 0, 0, Language_CPP, 0,
  2864, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_p_p", "std::pair<std::pair<int, int>, std::pair<int, int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::pair<int, int>, std::pair<int, int> >), 0, 0, Language_CPP, 0,
  2912, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STL, "std::pair<int, int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_i_m", "std::pair<int, std::map<int, int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, std::map<int, int> >), 0, 0, Language_CPP, 0,
  2928, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_v_m", "std::pair<std::vector<int>, std::map<int, int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<std::vector<int>, std::map<int, int> >), 0, 0, Language_CPP, 0,
  2984, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"q_v_i", "std::queue<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::queue<std::vector<int> >), 0, 0, Language_CPP, 0,
  3056, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_QUEUE, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k_v_i", "std::stack<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<std::vector<int> >), 0, 0, Language_CPP, 0,
  3136, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pq_v_i", "std::priority_queue<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::priority_queue<std::vector<int> >), 0, 0, Language_CPP, 0,
  3216, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PRIORITY_QUEUE, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"a_v_i", "std::array<std::vector<int>, 2>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::array<std::vector<int>, 2>), 0, 0, Language_CPP, 0,
  3248, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_ARRAY, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_a_i", "std::vector<std::array<int, 2> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::array<int, 2> >), 0, 0, Language_CPP, 0,
  3296, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::array<int, 2>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_k_i", "std::vector<std::stack<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::stack<int> >), 0, 0, Language_CPP, 0,
  3320, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::stack<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_q_i", "std::vector<std::queue<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::queue<int> >), 0, 0, Language_CPP, 0,
  3344, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::queue<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v_pq_i", "std::vector<std::priority_queue<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::priority_queue<int> >), 0, 0, Language_CPP, 0,
  3368, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::priority_queue<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_i_k", "std::map<int, std::stack<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, std::stack<int> >), 0, 0, Language_CPP, 0,
  3392, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::stack<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"q_k_i", "std::queue<std::stack<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::queue<std::stack<int> >), 0, 0, Language_CPP, 0,
  3440, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_QUEUE, TRICK_STL, "std::stack<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k_q_i", "std::stack<std::queue<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<std::queue<int> >), 0, 0, Language_CPP, 0,
  3520, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_STL, "std::queue<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k_k_i", "std::stack<std::stack<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<std::stack<int> >), 0, 0, Language_CPP, 0,
  3600, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_STL, "std::stack<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d_m_v_str", "std::deque<std::map<int, std::vector<std::string> > >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::deque<std::map<int, std::vector<std::basic_string<char> > > >), 0, 0, Language_CPP, 0,
  3680, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_DEQUE, TRICK_STL, "std::map<int, class std::vector<class std::basic_string<char> > >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l_p_p", "std::list<std::pair<int, std::pair<int, std::vector<int> > > >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<std::pair<int, std::pair<int, std::vector<int> > > >), 0, 0, Language_CPP, 0,
  3760, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_STL, "std::pair<int, struct std::pair<int, std::vector<int> > >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_S8_v_d(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_d(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_d(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_d(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_d(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_d(void* start_address, size_t index) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_f(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_f(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_f(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_f(void* start_address) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_f(void* start_address) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_f(void* start_address, size_t index) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_c(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_c(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_c(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_c(void* start_address) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_c(void* start_address) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_c(void* start_address, size_t index) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_uc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_uc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_uc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_uc(void* start_address) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_uc(void* start_address) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_uc(void* start_address, size_t index) {
    std::vector<unsigned char>* stl = reinterpret_cast<std::vector<unsigned char>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_s(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_s(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_s(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_s(void* start_address) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_s(void* start_address) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_s(void* start_address, size_t index) {
    std::vector<short>* stl = reinterpret_cast<std::vector<short>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_us(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_us(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_us(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_us(void* start_address) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_us(void* start_address) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_us(void* start_address, size_t index) {
    std::vector<unsigned short>* stl = reinterpret_cast<std::vector<unsigned short>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_i(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_i(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_i(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ui(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ui(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ui(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ui(void* start_address) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ui(void* start_address) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ui(void* start_address, size_t index) {
    std::vector<unsigned int>* stl = reinterpret_cast<std::vector<unsigned int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_l(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_l(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_l(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_l(void* start_address) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_l(void* start_address) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_l(void* start_address, size_t index) {
    std::vector<long>* stl = reinterpret_cast<std::vector<long>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ul(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ul(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ul(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ul(void* start_address) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ul(void* start_address) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ul(void* start_address, size_t index) {
    std::vector<unsigned long>* stl = reinterpret_cast<std::vector<unsigned long>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ll(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ll(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ll(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ll(void* start_address) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ll(void* start_address) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ll(void* start_address, size_t index) {
    std::vector<long long>* stl = reinterpret_cast<std::vector<long long>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ull(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ull(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ull(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ull(void* start_address) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ull(void* start_address) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ull(void* start_address, size_t index) {
    std::vector<unsigned long long>* stl = reinterpret_cast<std::vector<unsigned long long>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_b(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_b(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_b(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_b(void* start_address) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_b(void* start_address) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_b(void* start_address, size_t index) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    static thread_local std::vector<char> temp; if (temp.size() < stl->size()) { temp.resize(stl->size()); } temp[index] = (*stl)[index]; return (void*)&temp[index];
}
void set_stl_element_stl_S8_v_b(void* start_address, size_t index, void* value_ptr) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    (*stl)[index] = *(bool*)value_ptr;
}
void checkpoint_stl_S8_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_str(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_str(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_str(void* start_address, size_t index) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_e(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_e(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_e(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_e(void* start_address) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_e(void* start_address) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_e(void* start_address, size_t index) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_k(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_k(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_k(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_k(void* start_address) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_k(void* start_address) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_k(void* start_address, size_t index) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ne(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ne(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ne(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ne(void* start_address) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ne(void* start_address) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ne(void* start_address, size_t index) {
    std::vector<enum ns8::Col8>* stl = reinterpret_cast<std::vector<enum ns8::Col8>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_w(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_w(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_w(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_w(void* start_address) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_w(void* start_address) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_w(void* start_address, size_t index) {
    std::vector<wchar_t>* stl = reinterpret_cast<std::vector<wchar_t>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_u(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_u(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_u(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_u(void* start_address) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_u(void* start_address) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_u(void* start_address, size_t index) {
    std::vector<U8>* stl = reinterpret_cast<std::vector<U8>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_v(void* start_address) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_v(void* start_address) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_v(void* start_address, size_t index) {
    std::vector<ns8::V8>* stl = reinterpret_cast<std::vector<ns8::V8>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_in(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_in(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_in(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_in(void* start_address) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_in(void* start_address) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_in(void* start_address, size_t index) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_up(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_up(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_up(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_up(void* start_address) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_up(void* start_address) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_up(void* start_address, size_t index) {
    std::vector<U8 *>* stl = reinterpret_cast<std::vector<U8 *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_dp(void* start_address) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_dp(void* start_address) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_dp(void* start_address, size_t index) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_ip(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_ip(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_ip(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_ip(void* start_address) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_ip(void* start_address) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_ip(void* start_address, size_t index) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_sp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_sp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_sp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_sp(void* start_address) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_sp(void* start_address) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_sp(void* start_address, size_t index) {
    std::vector<std::basic_string<char> *>* stl = reinterpret_cast<std::vector<std::basic_string<char> *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_l_i(void* start_address) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_l_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_l_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_l_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_l_str(void* start_address) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_l_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::list<double *>* stl = reinterpret_cast<std::list<double *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_l_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::list<double *>* stl = reinterpret_cast<std::list<double *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_l_dp(void* start_address, const char* obj_name , const char* var_name) {
    std::list<double *>* stl = reinterpret_cast<std::list<double *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_l_dp(void* start_address) {
    std::list<double *>* stl = reinterpret_cast<std::list<double *>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_d_d(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_d_d(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_d_d(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_d_d(void* start_address) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_d_d(void* start_address) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_d_d(void* start_address, size_t index) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_d_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_d_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_d_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_d_str(void* start_address) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_d_str(void* start_address) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_d_str(void* start_address, size_t index) {
    std::deque<std::basic_string<char> >* stl = reinterpret_cast<std::deque<std::basic_string<char> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_s_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_s_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_s_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_s_i(void* start_address) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_s_str(void* start_address) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_ms_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_ms_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_ms_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_ms_i(void* start_address) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_ms_str(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::basic_string<char> >* stl = reinterpret_cast<std::multiset<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_ms_str(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::basic_string<char> >* stl = reinterpret_cast<std::multiset<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_ms_str(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::basic_string<char> >* stl = reinterpret_cast<std::multiset<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_ms_str(void* start_address) {
    std::multiset<std::basic_string<char> >* stl = reinterpret_cast<std::multiset<std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_s_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int, std::greater<int> >* stl = reinterpret_cast<std::set<int, std::greater<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_s_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int, std::greater<int> >* stl = reinterpret_cast<std::set<int, std::greater<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_s_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int, std::greater<int> >* stl = reinterpret_cast<std::set<int, std::greater<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_s_ig(void* start_address) {
    std::set<int, std::greater<int> >* stl = reinterpret_cast<std::set<int, std::greater<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_id(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_id(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_id(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_id(void* start_address) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_stri(void* start_address) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_strstr(void* start_address) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_iu(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, U8>* stl = reinterpret_cast<std::map<int, U8>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_iu(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, U8>* stl = reinterpret_cast<std::map<int, U8>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_iu(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, U8>* stl = reinterpret_cast<std::map<int, U8>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_iu(void* start_address) {
    std::map<int, U8>* stl = reinterpret_cast<std::map<int, U8>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_idp(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double *>* stl = reinterpret_cast<std::map<int, double *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_idp(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double *>* stl = reinterpret_cast<std::map<int, double *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_idp(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double *>* stl = reinterpret_cast<std::map<int, double *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_idp(void* start_address) {
    std::map<int, double *>* stl = reinterpret_cast<std::map<int, double *>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_ei(void* start_address, const char* obj_name , const char* var_name) {
    std::map<enum MMColor, int>* stl = reinterpret_cast<std::map<enum MMColor, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_ei(void* start_address, const char* obj_name , const char* var_name) {
    std::map<enum MMColor, int>* stl = reinterpret_cast<std::map<enum MMColor, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_ei(void* start_address, const char* obj_name , const char* var_name) {
    std::map<enum MMColor, int>* stl = reinterpret_cast<std::map<enum MMColor, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_ei(void* start_address) {
    std::map<enum MMColor, int>* stl = reinterpret_cast<std::map<enum MMColor, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_mm_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_mm_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_mm_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_mm_ii(void* start_address) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_mm_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::multimap<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_mm_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::multimap<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_mm_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::multimap<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_mm_strstr(void* start_address) {
    std::multimap<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::multimap<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_bc(void* start_address, const char* obj_name , const char* var_name) {
    std::map<bool, char>* stl = reinterpret_cast<std::map<bool, char>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_bc(void* start_address, const char* obj_name , const char* var_name) {
    std::map<bool, char>* stl = reinterpret_cast<std::map<bool, char>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_bc(void* start_address, const char* obj_name , const char* var_name) {
    std::map<bool, char>* stl = reinterpret_cast<std::map<bool, char>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_bc(void* start_address) {
    std::map<bool, char>* stl = reinterpret_cast<std::map<bool, char>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_p_id(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_id(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_id(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, int>* stl = reinterpret_cast<std::pair<std::basic_string<char>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, int>* stl = reinterpret_cast<std::pair<std::basic_string<char>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_stri(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, int>* stl = reinterpret_cast<std::pair<std::basic_string<char>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::pair<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::pair<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_strstr(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::pair<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_pp(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<double *, U8 *>* stl = reinterpret_cast<std::pair<double *, U8 *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_pp(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<double *, U8 *>* stl = reinterpret_cast<std::pair<double *, U8 *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_pp(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<double *, U8 *>* stl = reinterpret_cast<std::pair<double *, U8 *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_q_str(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::basic_string<char> >* stl = reinterpret_cast<std::queue<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_q_str(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::basic_string<char> >* stl = reinterpret_cast<std::queue<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_q_str(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::basic_string<char> >* stl = reinterpret_cast<std::queue<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_k_str(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::basic_string<char> >* stl = reinterpret_cast<std::stack<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_k_str(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::basic_string<char> >* stl = reinterpret_cast<std::stack<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_k_str(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::basic_string<char> >* stl = reinterpret_cast<std::stack<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_pq_str(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::basic_string<char> >* stl = reinterpret_cast<std::priority_queue<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_pq_str(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::basic_string<char> >* stl = reinterpret_cast<std::priority_queue<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_pq_str(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::basic_string<char> >* stl = reinterpret_cast<std::priority_queue<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_pq_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int, std::vector<int>, std::greater<int> >* stl = reinterpret_cast<std::priority_queue<int, std::vector<int>, std::greater<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_pq_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int, std::vector<int>, std::greater<int> >* stl = reinterpret_cast<std::priority_queue<int, std::vector<int>, std::greater<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_pq_ig(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int, std::vector<int>, std::greater<int> >* stl = reinterpret_cast<std::priority_queue<int, std::vector<int>, std::greater<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
size_t get_stl_size_stl_S8_a_i(void* start_address) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_a_i(void* start_address, size_t index) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_a_str(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::basic_string<char>, 2>* stl = reinterpret_cast<std::array<std::basic_string<char>, 2>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_a_str(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::basic_string<char>, 2>* stl = reinterpret_cast<std::array<std::basic_string<char>, 2>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_a_str(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::basic_string<char>, 2>* stl = reinterpret_cast<std::array<std::basic_string<char>, 2>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
size_t get_stl_size_stl_S8_a_str(void* start_address) {
    std::array<std::basic_string<char>, 2>* stl = reinterpret_cast<std::array<std::basic_string<char>, 2>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_a_str(void* start_address, size_t index) {
    std::array<std::basic_string<char>, 2>* stl = reinterpret_cast<std::array<std::basic_string<char>, 2>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_v_i(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_v_i(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_v_i(void* start_address, size_t index) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_v_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_v_v_i(void* start_address) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_v_v_i(void* start_address) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_v_v_i(void* start_address, size_t index) {
    std::vector<std::vector<std::vector<int> > >* stl = reinterpret_cast<std::vector<std::vector<std::vector<int> > >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_l_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_l_i(void* start_address) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_l_i(void* start_address) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_l_i(void* start_address, size_t index) {
    std::vector<std::list<int> >* stl = reinterpret_cast<std::vector<std::list<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_l_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::set<std::basic_string<char> > >* stl = reinterpret_cast<std::list<std::set<std::basic_string<char> > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_l_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::set<std::basic_string<char> > >* stl = reinterpret_cast<std::list<std::set<std::basic_string<char> > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_l_s_str(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::set<std::basic_string<char> > >* stl = reinterpret_cast<std::list<std::set<std::basic_string<char> > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_l_s_str(void* start_address) {
    std::list<std::set<std::basic_string<char> > >* stl = reinterpret_cast<std::list<std::set<std::basic_string<char> > >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_s_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::vector<int> >* stl = reinterpret_cast<std::set<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_s_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::vector<int> >* stl = reinterpret_cast<std::set<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_s_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::vector<int> >* stl = reinterpret_cast<std::set<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_s_v_i(void* start_address) {
    std::set<std::vector<int> >* stl = reinterpret_cast<std::set<std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_ms_p_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::pair<int, int> >* stl = reinterpret_cast<std::multiset<std::pair<int, int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_ms_p_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::pair<int, int> >* stl = reinterpret_cast<std::multiset<std::pair<int, int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_ms_p_ii(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<std::pair<int, int> >* stl = reinterpret_cast<std::multiset<std::pair<int, int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_ms_p_ii(void* start_address) {
    std::multiset<std::pair<int, int> >* stl = reinterpret_cast<std::multiset<std::pair<int, int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_v_p_istr(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_p_istr(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_p_istr(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_p_istr(void* start_address) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_p_istr(void* start_address) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_p_istr(void* start_address, size_t index) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_s_m_sd(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::map<short, double> >* stl = reinterpret_cast<std::set<std::map<short, double> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_s_m_sd(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::map<short, double> >* stl = reinterpret_cast<std::set<std::map<short, double> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_s_m_sd(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::map<short, double> >* stl = reinterpret_cast<std::set<std::map<short, double> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_s_m_sd(void* start_address) {
    std::set<std::map<short, double> >* stl = reinterpret_cast<std::set<std::map<short, double> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_i_v_i(void* start_address) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_p_ii_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, int>* stl = reinterpret_cast<std::map<std::pair<int, int>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_p_ii_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, int>* stl = reinterpret_cast<std::map<std::pair<int, int>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_p_ii_i(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, int>* stl = reinterpret_cast<std::map<std::pair<int, int>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_p_ii_i(void* start_address) {
    std::map<std::pair<int, int>, int>* stl = reinterpret_cast<std::map<std::pair<int, int>, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::map<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::map<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::map<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_p_p(void* start_address) {
    std::map<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::map<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::map<std::vector<int>, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::map<std::vector<int>, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::map<std::vector<int>, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_v_v(void* start_address) {
    std::map<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::map<std::vector<int>, std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_mm_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, std::vector<int> >* stl = reinterpret_cast<std::multimap<int, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_mm_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, std::vector<int> >* stl = reinterpret_cast<std::multimap<int, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_mm_i_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, std::vector<int> >* stl = reinterpret_cast<std::multimap<int, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_mm_i_v_i(void* start_address) {
    std::multimap<int, std::vector<int> >* stl = reinterpret_cast<std::multimap<int, std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_mm_v_i_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::vector<int>, int>* stl = reinterpret_cast<std::multimap<std::vector<int>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_mm_v_i_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::vector<int>, int>* stl = reinterpret_cast<std::multimap<std::vector<int>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_mm_v_i_i(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::vector<int>, int>* stl = reinterpret_cast<std::multimap<std::vector<int>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_mm_v_i_i(void* start_address) {
    std::multimap<std::vector<int>, int>* stl = reinterpret_cast<std::multimap<std::vector<int>, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_mm_p_v(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::pair<int, int>, std::vector<int> >* stl = reinterpret_cast<std::multimap<std::pair<int, int>, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_mm_p_v(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::pair<int, int>, std::vector<int> >* stl = reinterpret_cast<std::multimap<std::pair<int, int>, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_mm_p_v(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<std::pair<int, int>, std::vector<int> >* stl = reinterpret_cast<std::multimap<std::pair<int, int>, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_mm_p_v(void* start_address) {
    std::multimap<std::pair<int, int>, std::vector<int> >* stl = reinterpret_cast<std::multimap<std::pair<int, int>, std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_m_str_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_str_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_str_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_str_m(void* start_address) {
    std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::map<int, std::basic_string<char> > >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_p_i_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::vector<int> >* stl = reinterpret_cast<std::pair<int, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_i_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::vector<int> >* stl = reinterpret_cast<std::pair<int, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_i_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::vector<int> >* stl = reinterpret_cast<std::pair<int, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, int>* stl = reinterpret_cast<std::pair<std::vector<int>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, int>* stl = reinterpret_cast<std::pair<std::vector<int>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, int>* stl = reinterpret_cast<std::pair<std::vector<int>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_v_v(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::vector<int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::pair<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::pair<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::pair<int, int>, std::pair<int, int> >* stl = reinterpret_cast<std::pair<std::pair<int, int>, std::pair<int, int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_i_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::map<int, int> >* stl = reinterpret_cast<std::pair<int, std::map<int, int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_i_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::map<int, int> >* stl = reinterpret_cast<std::pair<int, std::map<int, int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_i_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::map<int, int> >* stl = reinterpret_cast<std::pair<int, std::map<int, int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_p_v_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::map<int, int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::map<int, int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_p_v_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::map<int, int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::map<int, int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_p_v_m(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<std::vector<int>, std::map<int, int> >* stl = reinterpret_cast<std::pair<std::vector<int>, std::map<int, int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_q_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::vector<int> >* stl = reinterpret_cast<std::queue<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_q_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::vector<int> >* stl = reinterpret_cast<std::queue<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_q_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::vector<int> >* stl = reinterpret_cast<std::queue<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_k_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::vector<int> >* stl = reinterpret_cast<std::stack<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_k_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::vector<int> >* stl = reinterpret_cast<std::stack<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_k_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::vector<int> >* stl = reinterpret_cast<std::stack<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_pq_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::vector<int> >* stl = reinterpret_cast<std::priority_queue<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_pq_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::vector<int> >* stl = reinterpret_cast<std::priority_queue<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_pq_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<std::vector<int> >* stl = reinterpret_cast<std::priority_queue<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_a_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::vector<int>, 2>* stl = reinterpret_cast<std::array<std::vector<int>, 2>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_a_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::vector<int>, 2>* stl = reinterpret_cast<std::array<std::vector<int>, 2>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_a_v_i(void* start_address, const char* obj_name , const char* var_name) {
    std::array<std::vector<int>, 2>* stl = reinterpret_cast<std::array<std::vector<int>, 2>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
size_t get_stl_size_stl_S8_a_v_i(void* start_address) {
    std::array<std::vector<int>, 2>* stl = reinterpret_cast<std::array<std::vector<int>, 2>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_a_v_i(void* start_address, size_t index) {
    std::array<std::vector<int>, 2>* stl = reinterpret_cast<std::array<std::vector<int>, 2>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_a_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_a_i(void* start_address) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_a_i(void* start_address) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_a_i(void* start_address, size_t index) {
    std::vector<std::array<int, 2> >* stl = reinterpret_cast<std::vector<std::array<int, 2> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_k_i(void* start_address) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_k_i(void* start_address) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_k_i(void* start_address, size_t index) {
    std::vector<std::stack<int> >* stl = reinterpret_cast<std::vector<std::stack<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_q_i(void* start_address) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_q_i(void* start_address) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_q_i(void* start_address, size_t index) {
    std::vector<std::queue<int> >* stl = reinterpret_cast<std::vector<std::queue<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_v_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_v_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_v_pq_i(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_v_pq_i(void* start_address) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_v_pq_i(void* start_address) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_v_pq_i(void* start_address, size_t index) {
    std::vector<std::priority_queue<int> >* stl = reinterpret_cast<std::vector<std::priority_queue<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_m_i_k(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::stack<int> >* stl = reinterpret_cast<std::map<int, std::stack<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_m_i_k(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::stack<int> >* stl = reinterpret_cast<std::map<int, std::stack<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_m_i_k(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::stack<int> >* stl = reinterpret_cast<std::map<int, std::stack<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_m_i_k(void* start_address) {
    std::map<int, std::stack<int> >* stl = reinterpret_cast<std::map<int, std::stack<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_S8_q_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::stack<int> >* stl = reinterpret_cast<std::queue<std::stack<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_q_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::stack<int> >* stl = reinterpret_cast<std::queue<std::stack<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_q_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<std::stack<int> >* stl = reinterpret_cast<std::queue<std::stack<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_k_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::queue<int> >* stl = reinterpret_cast<std::stack<std::queue<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_k_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::queue<int> >* stl = reinterpret_cast<std::stack<std::queue<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_k_q_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::queue<int> >* stl = reinterpret_cast<std::stack<std::queue<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_k_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::stack<int> >* stl = reinterpret_cast<std::stack<std::stack<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_k_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::stack<int> >* stl = reinterpret_cast<std::stack<std::stack<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_k_k_i(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<std::stack<int> >* stl = reinterpret_cast<std::stack<std::stack<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_S8_d_m_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_d_m_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_d_m_v_str(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_d_m_v_str(void* start_address) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_S8_d_m_v_str(void* start_address) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_S8_d_m_v_str(void* start_address, size_t index) {
    std::deque<std::map<int, std::vector<std::basic_string<char> > > >* stl = reinterpret_cast<std::deque<std::map<int, std::vector<std::basic_string<char> > > >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_S8_l_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::pair<int, std::pair<int, std::vector<int> > > >* stl = reinterpret_cast<std::list<std::pair<int, std::pair<int, std::vector<int> > > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_S8_l_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::pair<int, std::pair<int, std::vector<int> > > >* stl = reinterpret_cast<std::list<std::pair<int, std::pair<int, std::vector<int> > > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_S8_l_p_p(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::pair<int, std::pair<int, std::vector<int> > > >* stl = reinterpret_cast<std::list<std::pair<int, std::pair<int, std::vector<int> > > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_S8_l_p_p(void* start_address) {
    std::list<std::pair<int, std::pair<int, std::vector<int> > > >* stl = reinterpret_cast<std::list<std::pair<int, std::pair<int, std::vector<int> > > >*>(start_address);
    stl->clear();
}

} //extern "C"


void init_attrS8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrS8[0].checkpoint_stl = checkpoint_stl_S8_v_d ;
    attrS8[0].post_checkpoint_stl = post_checkpoint_stl_S8_v_d ;
    attrS8[0].restore_stl = restore_stl_S8_v_d ;
    attrS8[0].clear_stl = clear_stl_S8_v_d ;
    attrS8[0].get_stl_size = get_stl_size_stl_S8_v_d ;
    attrS8[0].get_stl_element = get_stl_element_stl_S8_v_d ;
    attrS8[1].checkpoint_stl = checkpoint_stl_S8_v_f ;
    attrS8[1].post_checkpoint_stl = post_checkpoint_stl_S8_v_f ;
    attrS8[1].restore_stl = restore_stl_S8_v_f ;
    attrS8[1].clear_stl = clear_stl_S8_v_f ;
    attrS8[1].get_stl_size = get_stl_size_stl_S8_v_f ;
    attrS8[1].get_stl_element = get_stl_element_stl_S8_v_f ;
    attrS8[2].checkpoint_stl = checkpoint_stl_S8_v_c ;
    attrS8[2].post_checkpoint_stl = post_checkpoint_stl_S8_v_c ;
    attrS8[2].restore_stl = restore_stl_S8_v_c ;
    attrS8[2].clear_stl = clear_stl_S8_v_c ;
    attrS8[2].get_stl_size = get_stl_size_stl_S8_v_c ;
    attrS8[2].get_stl_element = get_stl_element_stl_S8_v_c ;
    attrS8[3].checkpoint_stl = checkpoint_stl_S8_v_uc ;
    attrS8[3].post_checkpoint_stl = post_checkpoint_stl_S8_v_uc ;
    attrS8[3].restore_stl = restore_stl_S8_v_uc ;
    attrS8[3].clear_stl = clear_stl_S8_v_uc ;
    attrS8[3].get_stl_size = get_stl_size_stl_S8_v_uc ;
    attrS8[3].get_stl_element = get_stl_element_stl_S8_v_uc ;
    attrS8[4].checkpoint_stl = checkpoint_stl_S8_v_s ;
    attrS8[4].post_checkpoint_stl = post_checkpoint_stl_S8_v_s ;
    attrS8[4].restore_stl = restore_stl_S8_v_s ;
    attrS8[4].clear_stl = clear_stl_S8_v_s ;
    attrS8[4].get_stl_size = get_stl_size_stl_S8_v_s ;
    attrS8[4].get_stl_element = get_stl_element_stl_S8_v_s ;
    attrS8[5].checkpoint_stl = checkpoint_stl_S8_v_us ;
    attrS8[5].post_checkpoint_stl = post_checkpoint_stl_S8_v_us ;
    attrS8[5].restore_stl = restore_stl_S8_v_us ;
    attrS8[5].clear_stl = clear_stl_S8_v_us ;
    attrS8[5].get_stl_size = get_stl_size_stl_S8_v_us ;
    attrS8[5].get_stl_element = get_stl_element_stl_S8_v_us ;
    attrS8[6].checkpoint_stl = checkpoint_stl_S8_v_i ;
    attrS8[6].post_checkpoint_stl = post_checkpoint_stl_S8_v_i ;
    attrS8[6].restore_stl = restore_stl_S8_v_i ;
    attrS8[6].clear_stl = clear_stl_S8_v_i ;
    attrS8[6].get_stl_size = get_stl_size_stl_S8_v_i ;
    attrS8[6].get_stl_element = get_stl_element_stl_S8_v_i ;
    attrS8[7].checkpoint_stl = checkpoint_stl_S8_v_ui ;
    attrS8[7].post_checkpoint_stl = post_checkpoint_stl_S8_v_ui ;
    attrS8[7].restore_stl = restore_stl_S8_v_ui ;
    attrS8[7].clear_stl = clear_stl_S8_v_ui ;
    attrS8[7].get_stl_size = get_stl_size_stl_S8_v_ui ;
    attrS8[7].get_stl_element = get_stl_element_stl_S8_v_ui ;
    attrS8[8].checkpoint_stl = checkpoint_stl_S8_v_l ;
    attrS8[8].post_checkpoint_stl = post_checkpoint_stl_S8_v_l ;
    attrS8[8].restore_stl = restore_stl_S8_v_l ;
    attrS8[8].clear_stl = clear_stl_S8_v_l ;
    attrS8[8].get_stl_size = get_stl_size_stl_S8_v_l ;
    attrS8[8].get_stl_element = get_stl_element_stl_S8_v_l ;
    attrS8[9].checkpoint_stl = checkpoint_stl_S8_v_ul ;
    attrS8[9].post_checkpoint_stl = post_checkpoint_stl_S8_v_ul ;
    attrS8[9].restore_stl = restore_stl_S8_v_ul ;
    attrS8[9].clear_stl = clear_stl_S8_v_ul ;
    attrS8[9].get_stl_size = get_stl_size_stl_S8_v_ul ;
    attrS8[9].get_stl_element = get_stl_element_stl_S8_v_ul ;
    attrS8[10].checkpoint_stl = checkpoint_stl_S8_v_ll ;
    attrS8[10].post_checkpoint_stl = post_checkpoint_stl_S8_v_ll ;
    attrS8[10].restore_stl = restore_stl_S8_v_ll ;
    attrS8[10].clear_stl = clear_stl_S8_v_ll ;
    attrS8[10].get_stl_size = get_stl_size_stl_S8_v_ll ;
    attrS8[10].get_stl_element = get_stl_element_stl_S8_v_ll ;
    attrS8[11].checkpoint_stl = checkpoint_stl_S8_v_ull ;
    attrS8[11].post_checkpoint_stl = post_checkpoint_stl_S8_v_ull ;
    attrS8[11].restore_stl = restore_stl_S8_v_ull ;
    attrS8[11].clear_stl = clear_stl_S8_v_ull ;
    attrS8[11].get_stl_size = get_stl_size_stl_S8_v_ull ;
    attrS8[11].get_stl_element = get_stl_element_stl_S8_v_ull ;
    attrS8[12].checkpoint_stl = checkpoint_stl_S8_v_b ;
    attrS8[12].post_checkpoint_stl = post_checkpoint_stl_S8_v_b ;
    attrS8[12].restore_stl = restore_stl_S8_v_b ;
    attrS8[12].clear_stl = clear_stl_S8_v_b ;
    attrS8[12].get_stl_size = get_stl_size_stl_S8_v_b ;
    attrS8[12].get_stl_element = get_stl_element_stl_S8_v_b ;
    attrS8[12].set_stl_element = set_stl_element_stl_S8_v_b ;
    attrS8[13].checkpoint_stl = checkpoint_stl_S8_v_str ;
    attrS8[13].post_checkpoint_stl = post_checkpoint_stl_S8_v_str ;
    attrS8[13].restore_stl = restore_stl_S8_v_str ;
    attrS8[13].clear_stl = clear_stl_S8_v_str ;
    attrS8[13].get_stl_size = get_stl_size_stl_S8_v_str ;
    attrS8[13].get_stl_element = get_stl_element_stl_S8_v_str ;
    attrS8[14].checkpoint_stl = checkpoint_stl_S8_v_e ;
    attrS8[14].post_checkpoint_stl = post_checkpoint_stl_S8_v_e ;
    attrS8[14].restore_stl = restore_stl_S8_v_e ;
    attrS8[14].clear_stl = clear_stl_S8_v_e ;
    attrS8[14].get_stl_size = get_stl_size_stl_S8_v_e ;
    attrS8[14].get_stl_element = get_stl_element_stl_S8_v_e ;
    attrS8[15].checkpoint_stl = checkpoint_stl_S8_v_k ;
    attrS8[15].post_checkpoint_stl = post_checkpoint_stl_S8_v_k ;
    attrS8[15].restore_stl = restore_stl_S8_v_k ;
    attrS8[15].clear_stl = clear_stl_S8_v_k ;
    attrS8[15].get_stl_size = get_stl_size_stl_S8_v_k ;
    attrS8[15].get_stl_element = get_stl_element_stl_S8_v_k ;
    attrS8[16].checkpoint_stl = checkpoint_stl_S8_v_ne ;
    attrS8[16].post_checkpoint_stl = post_checkpoint_stl_S8_v_ne ;
    attrS8[16].restore_stl = restore_stl_S8_v_ne ;
    attrS8[16].clear_stl = clear_stl_S8_v_ne ;
    attrS8[16].get_stl_size = get_stl_size_stl_S8_v_ne ;
    attrS8[16].get_stl_element = get_stl_element_stl_S8_v_ne ;
    attrS8[17].checkpoint_stl = checkpoint_stl_S8_v_w ;
    attrS8[17].post_checkpoint_stl = post_checkpoint_stl_S8_v_w ;
    attrS8[17].restore_stl = restore_stl_S8_v_w ;
    attrS8[17].clear_stl = clear_stl_S8_v_w ;
    attrS8[17].get_stl_size = get_stl_size_stl_S8_v_w ;
    attrS8[17].get_stl_element = get_stl_element_stl_S8_v_w ;
    attrS8[18].checkpoint_stl = checkpoint_stl_S8_v_u ;
    attrS8[18].post_checkpoint_stl = post_checkpoint_stl_S8_v_u ;
    attrS8[18].restore_stl = restore_stl_S8_v_u ;
    attrS8[18].clear_stl = clear_stl_S8_v_u ;
    attrS8[18].get_stl_size = get_stl_size_stl_S8_v_u ;
    attrS8[18].get_stl_element = get_stl_element_stl_S8_v_u ;
    attrS8[19].checkpoint_stl = checkpoint_stl_S8_v_v ;
    attrS8[19].post_checkpoint_stl = post_checkpoint_stl_S8_v_v ;
    attrS8[19].restore_stl = restore_stl_S8_v_v ;
    attrS8[19].clear_stl = clear_stl_S8_v_v ;
    attrS8[19].get_stl_size = get_stl_size_stl_S8_v_v ;
    attrS8[19].get_stl_element = get_stl_element_stl_S8_v_v ;
    attrS8[20].checkpoint_stl = checkpoint_stl_S8_v_in ;
    attrS8[20].post_checkpoint_stl = post_checkpoint_stl_S8_v_in ;
    attrS8[20].restore_stl = restore_stl_S8_v_in ;
    attrS8[20].clear_stl = clear_stl_S8_v_in ;
    attrS8[20].get_stl_size = get_stl_size_stl_S8_v_in ;
    attrS8[20].get_stl_element = get_stl_element_stl_S8_v_in ;
    attrS8[21].checkpoint_stl = checkpoint_stl_S8_v_up ;
    attrS8[21].post_checkpoint_stl = post_checkpoint_stl_S8_v_up ;
    attrS8[21].restore_stl = restore_stl_S8_v_up ;
    attrS8[21].clear_stl = clear_stl_S8_v_up ;
    attrS8[21].get_stl_size = get_stl_size_stl_S8_v_up ;
    attrS8[21].get_stl_element = get_stl_element_stl_S8_v_up ;
    attrS8[22].checkpoint_stl = checkpoint_stl_S8_v_dp ;
    attrS8[22].post_checkpoint_stl = post_checkpoint_stl_S8_v_dp ;
    attrS8[22].restore_stl = restore_stl_S8_v_dp ;
    attrS8[22].clear_stl = clear_stl_S8_v_dp ;
    attrS8[22].get_stl_size = get_stl_size_stl_S8_v_dp ;
    attrS8[22].get_stl_element = get_stl_element_stl_S8_v_dp ;
    attrS8[23].checkpoint_stl = checkpoint_stl_S8_v_ip ;
    attrS8[23].post_checkpoint_stl = post_checkpoint_stl_S8_v_ip ;
    attrS8[23].restore_stl = restore_stl_S8_v_ip ;
    attrS8[23].clear_stl = clear_stl_S8_v_ip ;
    attrS8[23].get_stl_size = get_stl_size_stl_S8_v_ip ;
    attrS8[23].get_stl_element = get_stl_element_stl_S8_v_ip ;
    attrS8[24].checkpoint_stl = checkpoint_stl_S8_v_sp ;
    attrS8[24].post_checkpoint_stl = post_checkpoint_stl_S8_v_sp ;
    attrS8[24].restore_stl = restore_stl_S8_v_sp ;
    attrS8[24].clear_stl = clear_stl_S8_v_sp ;
    attrS8[24].get_stl_size = get_stl_size_stl_S8_v_sp ;
    attrS8[24].get_stl_element = get_stl_element_stl_S8_v_sp ;
    attrS8[25].checkpoint_stl = checkpoint_stl_S8_l_i ;
    attrS8[25].post_checkpoint_stl = post_checkpoint_stl_S8_l_i ;
    attrS8[25].restore_stl = restore_stl_S8_l_i ;
    attrS8[25].clear_stl = clear_stl_S8_l_i ;
    attrS8[26].checkpoint_stl = checkpoint_stl_S8_l_str ;
    attrS8[26].post_checkpoint_stl = post_checkpoint_stl_S8_l_str ;
    attrS8[26].restore_stl = restore_stl_S8_l_str ;
    attrS8[26].clear_stl = clear_stl_S8_l_str ;
    attrS8[27].checkpoint_stl = checkpoint_stl_S8_l_dp ;
    attrS8[27].post_checkpoint_stl = post_checkpoint_stl_S8_l_dp ;
    attrS8[27].restore_stl = restore_stl_S8_l_dp ;
    attrS8[27].clear_stl = clear_stl_S8_l_dp ;
    attrS8[28].checkpoint_stl = checkpoint_stl_S8_d_d ;
    attrS8[28].post_checkpoint_stl = post_checkpoint_stl_S8_d_d ;
    attrS8[28].restore_stl = restore_stl_S8_d_d ;
    attrS8[28].clear_stl = clear_stl_S8_d_d ;
    attrS8[28].get_stl_size = get_stl_size_stl_S8_d_d ;
    attrS8[28].get_stl_element = get_stl_element_stl_S8_d_d ;
    attrS8[29].checkpoint_stl = checkpoint_stl_S8_d_str ;
    attrS8[29].post_checkpoint_stl = post_checkpoint_stl_S8_d_str ;
    attrS8[29].restore_stl = restore_stl_S8_d_str ;
    attrS8[29].clear_stl = clear_stl_S8_d_str ;
    attrS8[29].get_stl_size = get_stl_size_stl_S8_d_str ;
    attrS8[29].get_stl_element = get_stl_element_stl_S8_d_str ;
    attrS8[30].checkpoint_stl = checkpoint_stl_S8_s_i ;
    attrS8[30].post_checkpoint_stl = post_checkpoint_stl_S8_s_i ;
    attrS8[30].restore_stl = restore_stl_S8_s_i ;
    attrS8[30].clear_stl = clear_stl_S8_s_i ;
    attrS8[31].checkpoint_stl = checkpoint_stl_S8_s_str ;
    attrS8[31].post_checkpoint_stl = post_checkpoint_stl_S8_s_str ;
    attrS8[31].restore_stl = restore_stl_S8_s_str ;
    attrS8[31].clear_stl = clear_stl_S8_s_str ;
    attrS8[32].checkpoint_stl = checkpoint_stl_S8_ms_i ;
    attrS8[32].post_checkpoint_stl = post_checkpoint_stl_S8_ms_i ;
    attrS8[32].restore_stl = restore_stl_S8_ms_i ;
    attrS8[32].clear_stl = clear_stl_S8_ms_i ;
    attrS8[33].checkpoint_stl = checkpoint_stl_S8_ms_str ;
    attrS8[33].post_checkpoint_stl = post_checkpoint_stl_S8_ms_str ;
    attrS8[33].restore_stl = restore_stl_S8_ms_str ;
    attrS8[33].clear_stl = clear_stl_S8_ms_str ;
    attrS8[34].checkpoint_stl = checkpoint_stl_S8_s_ig ;
    attrS8[34].post_checkpoint_stl = post_checkpoint_stl_S8_s_ig ;
    attrS8[34].restore_stl = restore_stl_S8_s_ig ;
    attrS8[34].clear_stl = clear_stl_S8_s_ig ;
    attrS8[35].checkpoint_stl = checkpoint_stl_S8_m_id ;
    attrS8[35].post_checkpoint_stl = post_checkpoint_stl_S8_m_id ;
    attrS8[35].restore_stl = restore_stl_S8_m_id ;
    attrS8[35].clear_stl = clear_stl_S8_m_id ;
    attrS8[36].checkpoint_stl = checkpoint_stl_S8_m_stri ;
    attrS8[36].post_checkpoint_stl = post_checkpoint_stl_S8_m_stri ;
    attrS8[36].restore_stl = restore_stl_S8_m_stri ;
    attrS8[36].clear_stl = clear_stl_S8_m_stri ;
    attrS8[37].checkpoint_stl = checkpoint_stl_S8_m_strstr ;
    attrS8[37].post_checkpoint_stl = post_checkpoint_stl_S8_m_strstr ;
    attrS8[37].restore_stl = restore_stl_S8_m_strstr ;
    attrS8[37].clear_stl = clear_stl_S8_m_strstr ;
    attrS8[38].checkpoint_stl = checkpoint_stl_S8_m_iu ;
    attrS8[38].post_checkpoint_stl = post_checkpoint_stl_S8_m_iu ;
    attrS8[38].restore_stl = restore_stl_S8_m_iu ;
    attrS8[38].clear_stl = clear_stl_S8_m_iu ;
    attrS8[39].checkpoint_stl = checkpoint_stl_S8_m_idp ;
    attrS8[39].post_checkpoint_stl = post_checkpoint_stl_S8_m_idp ;
    attrS8[39].restore_stl = restore_stl_S8_m_idp ;
    attrS8[39].clear_stl = clear_stl_S8_m_idp ;
    attrS8[40].checkpoint_stl = checkpoint_stl_S8_m_ei ;
    attrS8[40].post_checkpoint_stl = post_checkpoint_stl_S8_m_ei ;
    attrS8[40].restore_stl = restore_stl_S8_m_ei ;
    attrS8[40].clear_stl = clear_stl_S8_m_ei ;
    attrS8[41].checkpoint_stl = checkpoint_stl_S8_mm_ii ;
    attrS8[41].post_checkpoint_stl = post_checkpoint_stl_S8_mm_ii ;
    attrS8[41].restore_stl = restore_stl_S8_mm_ii ;
    attrS8[41].clear_stl = clear_stl_S8_mm_ii ;
    attrS8[42].checkpoint_stl = checkpoint_stl_S8_mm_strstr ;
    attrS8[42].post_checkpoint_stl = post_checkpoint_stl_S8_mm_strstr ;
    attrS8[42].restore_stl = restore_stl_S8_mm_strstr ;
    attrS8[42].clear_stl = clear_stl_S8_mm_strstr ;
    attrS8[43].checkpoint_stl = checkpoint_stl_S8_m_bc ;
    attrS8[43].post_checkpoint_stl = post_checkpoint_stl_S8_m_bc ;
    attrS8[43].restore_stl = restore_stl_S8_m_bc ;
    attrS8[43].clear_stl = clear_stl_S8_m_bc ;
    attrS8[44].checkpoint_stl = checkpoint_stl_S8_p_id ;
    attrS8[44].post_checkpoint_stl = post_checkpoint_stl_S8_p_id ;
    attrS8[44].restore_stl = restore_stl_S8_p_id ;
    attrS8[45].checkpoint_stl = checkpoint_stl_S8_p_stri ;
    attrS8[45].post_checkpoint_stl = post_checkpoint_stl_S8_p_stri ;
    attrS8[45].restore_stl = restore_stl_S8_p_stri ;
    attrS8[46].checkpoint_stl = checkpoint_stl_S8_p_strstr ;
    attrS8[46].post_checkpoint_stl = post_checkpoint_stl_S8_p_strstr ;
    attrS8[46].restore_stl = restore_stl_S8_p_strstr ;
    attrS8[47].checkpoint_stl = checkpoint_stl_S8_p_pp ;
    attrS8[47].post_checkpoint_stl = post_checkpoint_stl_S8_p_pp ;
    attrS8[47].restore_stl = restore_stl_S8_p_pp ;
    attrS8[48].checkpoint_stl = checkpoint_stl_S8_q_i ;
    attrS8[48].post_checkpoint_stl = post_checkpoint_stl_S8_q_i ;
    attrS8[48].restore_stl = restore_stl_S8_q_i ;
    attrS8[49].checkpoint_stl = checkpoint_stl_S8_q_str ;
    attrS8[49].post_checkpoint_stl = post_checkpoint_stl_S8_q_str ;
    attrS8[49].restore_stl = restore_stl_S8_q_str ;
    attrS8[50].checkpoint_stl = checkpoint_stl_S8_k_i ;
    attrS8[50].post_checkpoint_stl = post_checkpoint_stl_S8_k_i ;
    attrS8[50].restore_stl = restore_stl_S8_k_i ;
    attrS8[51].checkpoint_stl = checkpoint_stl_S8_k_str ;
    attrS8[51].post_checkpoint_stl = post_checkpoint_stl_S8_k_str ;
    attrS8[51].restore_stl = restore_stl_S8_k_str ;
    attrS8[52].checkpoint_stl = checkpoint_stl_S8_pq_i ;
    attrS8[52].post_checkpoint_stl = post_checkpoint_stl_S8_pq_i ;
    attrS8[52].restore_stl = restore_stl_S8_pq_i ;
    attrS8[53].checkpoint_stl = checkpoint_stl_S8_pq_str ;
    attrS8[53].post_checkpoint_stl = post_checkpoint_stl_S8_pq_str ;
    attrS8[53].restore_stl = restore_stl_S8_pq_str ;
    attrS8[54].checkpoint_stl = checkpoint_stl_S8_pq_ig ;
    attrS8[54].post_checkpoint_stl = post_checkpoint_stl_S8_pq_ig ;
    attrS8[54].restore_stl = restore_stl_S8_pq_ig ;
    attrS8[55].checkpoint_stl = checkpoint_stl_S8_a_i ;
    attrS8[55].post_checkpoint_stl = post_checkpoint_stl_S8_a_i ;
    attrS8[55].restore_stl = restore_stl_S8_a_i ;
    attrS8[55].get_stl_size = get_stl_size_stl_S8_a_i ;
    attrS8[55].get_stl_element = get_stl_element_stl_S8_a_i ;
    attrS8[56].checkpoint_stl = checkpoint_stl_S8_a_str ;
    attrS8[56].post_checkpoint_stl = post_checkpoint_stl_S8_a_str ;
    attrS8[56].restore_stl = restore_stl_S8_a_str ;
    attrS8[56].get_stl_size = get_stl_size_stl_S8_a_str ;
    attrS8[56].get_stl_element = get_stl_element_stl_S8_a_str ;
    attrS8[57].checkpoint_stl = checkpoint_stl_S8_v_v_i ;
    attrS8[57].post_checkpoint_stl = post_checkpoint_stl_S8_v_v_i ;
    attrS8[57].restore_stl = restore_stl_S8_v_v_i ;
    attrS8[57].clear_stl = clear_stl_S8_v_v_i ;
    attrS8[57].get_stl_size = get_stl_size_stl_S8_v_v_i ;
    attrS8[57].get_stl_element = get_stl_element_stl_S8_v_v_i ;
    attrS8[58].checkpoint_stl = checkpoint_stl_S8_v_v_v_i ;
    attrS8[58].post_checkpoint_stl = post_checkpoint_stl_S8_v_v_v_i ;
    attrS8[58].restore_stl = restore_stl_S8_v_v_v_i ;
    attrS8[58].clear_stl = clear_stl_S8_v_v_v_i ;
    attrS8[58].get_stl_size = get_stl_size_stl_S8_v_v_v_i ;
    attrS8[58].get_stl_element = get_stl_element_stl_S8_v_v_v_i ;
    attrS8[59].checkpoint_stl = checkpoint_stl_S8_v_l_i ;
    attrS8[59].post_checkpoint_stl = post_checkpoint_stl_S8_v_l_i ;
    attrS8[59].restore_stl = restore_stl_S8_v_l_i ;
    attrS8[59].clear_stl = clear_stl_S8_v_l_i ;
    attrS8[59].get_stl_size = get_stl_size_stl_S8_v_l_i ;
    attrS8[59].get_stl_element = get_stl_element_stl_S8_v_l_i ;
    attrS8[60].checkpoint_stl = checkpoint_stl_S8_l_s_str ;
    attrS8[60].post_checkpoint_stl = post_checkpoint_stl_S8_l_s_str ;
    attrS8[60].restore_stl = restore_stl_S8_l_s_str ;
    attrS8[60].clear_stl = clear_stl_S8_l_s_str ;
    attrS8[61].checkpoint_stl = checkpoint_stl_S8_s_v_i ;
    attrS8[61].post_checkpoint_stl = post_checkpoint_stl_S8_s_v_i ;
    attrS8[61].restore_stl = restore_stl_S8_s_v_i ;
    attrS8[61].clear_stl = clear_stl_S8_s_v_i ;
    attrS8[62].checkpoint_stl = checkpoint_stl_S8_ms_p_ii ;
    attrS8[62].post_checkpoint_stl = post_checkpoint_stl_S8_ms_p_ii ;
    attrS8[62].restore_stl = restore_stl_S8_ms_p_ii ;
    attrS8[62].clear_stl = clear_stl_S8_ms_p_ii ;
    attrS8[63].checkpoint_stl = checkpoint_stl_S8_v_p_istr ;
    attrS8[63].post_checkpoint_stl = post_checkpoint_stl_S8_v_p_istr ;
    attrS8[63].restore_stl = restore_stl_S8_v_p_istr ;
    attrS8[63].clear_stl = clear_stl_S8_v_p_istr ;
    attrS8[63].get_stl_size = get_stl_size_stl_S8_v_p_istr ;
    attrS8[63].get_stl_element = get_stl_element_stl_S8_v_p_istr ;
    attrS8[64].checkpoint_stl = checkpoint_stl_S8_s_m_sd ;
    attrS8[64].post_checkpoint_stl = post_checkpoint_stl_S8_s_m_sd ;
    attrS8[64].restore_stl = restore_stl_S8_s_m_sd ;
    attrS8[64].clear_stl = clear_stl_S8_s_m_sd ;
    attrS8[65].checkpoint_stl = checkpoint_stl_S8_m_i_v_i ;
    attrS8[65].post_checkpoint_stl = post_checkpoint_stl_S8_m_i_v_i ;
    attrS8[65].restore_stl = restore_stl_S8_m_i_v_i ;
    attrS8[65].clear_stl = clear_stl_S8_m_i_v_i ;
    attrS8[66].checkpoint_stl = checkpoint_stl_S8_m_p_ii_i ;
    attrS8[66].post_checkpoint_stl = post_checkpoint_stl_S8_m_p_ii_i ;
    attrS8[66].restore_stl = restore_stl_S8_m_p_ii_i ;
    attrS8[66].clear_stl = clear_stl_S8_m_p_ii_i ;
    attrS8[67].checkpoint_stl = checkpoint_stl_S8_m_p_p ;
    attrS8[67].post_checkpoint_stl = post_checkpoint_stl_S8_m_p_p ;
    attrS8[67].restore_stl = restore_stl_S8_m_p_p ;
    attrS8[67].clear_stl = clear_stl_S8_m_p_p ;
    attrS8[68].checkpoint_stl = checkpoint_stl_S8_m_v_v ;
    attrS8[68].post_checkpoint_stl = post_checkpoint_stl_S8_m_v_v ;
    attrS8[68].restore_stl = restore_stl_S8_m_v_v ;
    attrS8[68].clear_stl = clear_stl_S8_m_v_v ;
    attrS8[69].checkpoint_stl = checkpoint_stl_S8_mm_i_v_i ;
    attrS8[69].post_checkpoint_stl = post_checkpoint_stl_S8_mm_i_v_i ;
    attrS8[69].restore_stl = restore_stl_S8_mm_i_v_i ;
    attrS8[69].clear_stl = clear_stl_S8_mm_i_v_i ;
    attrS8[70].checkpoint_stl = checkpoint_stl_S8_mm_v_i_i ;
    attrS8[70].post_checkpoint_stl = post_checkpoint_stl_S8_mm_v_i_i ;
    attrS8[70].restore_stl = restore_stl_S8_mm_v_i_i ;
    attrS8[70].clear_stl = clear_stl_S8_mm_v_i_i ;
    attrS8[71].checkpoint_stl = checkpoint_stl_S8_mm_p_v ;
    attrS8[71].post_checkpoint_stl = post_checkpoint_stl_S8_mm_p_v ;
    attrS8[71].restore_stl = restore_stl_S8_mm_p_v ;
    attrS8[71].clear_stl = clear_stl_S8_mm_p_v ;
    attrS8[72].checkpoint_stl = checkpoint_stl_S8_m_str_m ;
    attrS8[72].post_checkpoint_stl = post_checkpoint_stl_S8_m_str_m ;
    attrS8[72].restore_stl = restore_stl_S8_m_str_m ;
    attrS8[72].clear_stl = clear_stl_S8_m_str_m ;
    attrS8[73].checkpoint_stl = checkpoint_stl_S8_p_i_v ;
    attrS8[73].post_checkpoint_stl = post_checkpoint_stl_S8_p_i_v ;
    attrS8[73].restore_stl = restore_stl_S8_p_i_v ;
    attrS8[74].checkpoint_stl = checkpoint_stl_S8_p_v_i ;
    attrS8[74].post_checkpoint_stl = post_checkpoint_stl_S8_p_v_i ;
    attrS8[74].restore_stl = restore_stl_S8_p_v_i ;
    attrS8[75].checkpoint_stl = checkpoint_stl_S8_p_v_v ;
    attrS8[75].post_checkpoint_stl = post_checkpoint_stl_S8_p_v_v ;
    attrS8[75].restore_stl = restore_stl_S8_p_v_v ;
    attrS8[76].checkpoint_stl = checkpoint_stl_S8_p_p_p ;
    attrS8[76].post_checkpoint_stl = post_checkpoint_stl_S8_p_p_p ;
    attrS8[76].restore_stl = restore_stl_S8_p_p_p ;
    attrS8[77].checkpoint_stl = checkpoint_stl_S8_p_i_m ;
    attrS8[77].post_checkpoint_stl = post_checkpoint_stl_S8_p_i_m ;
    attrS8[77].restore_stl = restore_stl_S8_p_i_m ;
    attrS8[78].checkpoint_stl = checkpoint_stl_S8_p_v_m ;
    attrS8[78].post_checkpoint_stl = post_checkpoint_stl_S8_p_v_m ;
    attrS8[78].restore_stl = restore_stl_S8_p_v_m ;
    attrS8[79].checkpoint_stl = checkpoint_stl_S8_q_v_i ;
    attrS8[79].post_checkpoint_stl = post_checkpoint_stl_S8_q_v_i ;
    attrS8[79].restore_stl = restore_stl_S8_q_v_i ;
    attrS8[80].checkpoint_stl = checkpoint_stl_S8_k_v_i ;
    attrS8[80].post_checkpoint_stl = post_checkpoint_stl_S8_k_v_i ;
    attrS8[80].restore_stl = restore_stl_S8_k_v_i ;
    attrS8[81].checkpoint_stl = checkpoint_stl_S8_pq_v_i ;
    attrS8[81].post_checkpoint_stl = post_checkpoint_stl_S8_pq_v_i ;
    attrS8[81].restore_stl = restore_stl_S8_pq_v_i ;
    attrS8[82].checkpoint_stl = checkpoint_stl_S8_a_v_i ;
    attrS8[82].post_checkpoint_stl = post_checkpoint_stl_S8_a_v_i ;
    attrS8[82].restore_stl = restore_stl_S8_a_v_i ;
    attrS8[82].get_stl_size = get_stl_size_stl_S8_a_v_i ;
    attrS8[82].get_stl_element = get_stl_element_stl_S8_a_v_i ;
    attrS8[83].checkpoint_stl = checkpoint_stl_S8_v_a_i ;
    attrS8[83].post_checkpoint_stl = post_checkpoint_stl_S8_v_a_i ;
    attrS8[83].restore_stl = restore_stl_S8_v_a_i ;
    attrS8[83].clear_stl = clear_stl_S8_v_a_i ;
    attrS8[83].get_stl_size = get_stl_size_stl_S8_v_a_i ;
    attrS8[83].get_stl_element = get_stl_element_stl_S8_v_a_i ;
    attrS8[84].checkpoint_stl = checkpoint_stl_S8_v_k_i ;
    attrS8[84].post_checkpoint_stl = post_checkpoint_stl_S8_v_k_i ;
    attrS8[84].restore_stl = restore_stl_S8_v_k_i ;
    attrS8[84].clear_stl = clear_stl_S8_v_k_i ;
    attrS8[84].get_stl_size = get_stl_size_stl_S8_v_k_i ;
    attrS8[84].get_stl_element = get_stl_element_stl_S8_v_k_i ;
    attrS8[85].checkpoint_stl = checkpoint_stl_S8_v_q_i ;
    attrS8[85].post_checkpoint_stl = post_checkpoint_stl_S8_v_q_i ;
    attrS8[85].restore_stl = restore_stl_S8_v_q_i ;
    attrS8[85].clear_stl = clear_stl_S8_v_q_i ;
    attrS8[85].get_stl_size = get_stl_size_stl_S8_v_q_i ;
    attrS8[85].get_stl_element = get_stl_element_stl_S8_v_q_i ;
    attrS8[86].checkpoint_stl = checkpoint_stl_S8_v_pq_i ;
    attrS8[86].post_checkpoint_stl = post_checkpoint_stl_S8_v_pq_i ;
    attrS8[86].restore_stl = restore_stl_S8_v_pq_i ;
    attrS8[86].clear_stl = clear_stl_S8_v_pq_i ;
    attrS8[86].get_stl_size = get_stl_size_stl_S8_v_pq_i ;
    attrS8[86].get_stl_element = get_stl_element_stl_S8_v_pq_i ;
    attrS8[87].checkpoint_stl = checkpoint_stl_S8_m_i_k ;
    attrS8[87].post_checkpoint_stl = post_checkpoint_stl_S8_m_i_k ;
    attrS8[87].restore_stl = restore_stl_S8_m_i_k ;
    attrS8[87].clear_stl = clear_stl_S8_m_i_k ;
    attrS8[88].checkpoint_stl = checkpoint_stl_S8_q_k_i ;
    attrS8[88].post_checkpoint_stl = post_checkpoint_stl_S8_q_k_i ;
    attrS8[88].restore_stl = restore_stl_S8_q_k_i ;
    attrS8[89].checkpoint_stl = checkpoint_stl_S8_k_q_i ;
    attrS8[89].post_checkpoint_stl = post_checkpoint_stl_S8_k_q_i ;
    attrS8[89].restore_stl = restore_stl_S8_k_q_i ;
    attrS8[90].checkpoint_stl = checkpoint_stl_S8_k_k_i ;
    attrS8[90].post_checkpoint_stl = post_checkpoint_stl_S8_k_k_i ;
    attrS8[90].restore_stl = restore_stl_S8_k_k_i ;
    attrS8[91].checkpoint_stl = checkpoint_stl_S8_d_m_v_str ;
    attrS8[91].post_checkpoint_stl = post_checkpoint_stl_S8_d_m_v_str ;
    attrS8[91].restore_stl = restore_stl_S8_d_m_v_str ;
    attrS8[91].clear_stl = clear_stl_S8_d_m_v_str ;
    attrS8[91].get_stl_size = get_stl_size_stl_S8_d_m_v_str ;
    attrS8[91].get_stl_element = get_stl_element_stl_S8_d_m_v_str ;
    attrS8[92].checkpoint_stl = checkpoint_stl_S8_l_p_p ;
    attrS8[92].post_checkpoint_stl = post_checkpoint_stl_S8_l_p_p ;
    attrS8[92].restore_stl = restore_stl_S8_l_p_p ;
    attrS8[92].clear_stl = clear_stl_S8_l_p_p ;
}

extern "C" {

void init_attrS8_c_intf() {
    init_attrS8() ;
}

size_t io_src_sizeof_S8() {
    return sizeof(S8) ;
}

void* io_src_allocate_S8(int num) {
    S8* temp = (S8*)calloc(num, sizeof(S8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) S8();
    }
    return (void*)temp;
}

void io_src_destruct_S8(void* address __attribute__((unused)), int num __attribute__((unused))) {
S8* temp = (S8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~S8();
    }
}

void io_src_delete_S8(void* address) {
    delete (S8*)address;
}

} //extern "C"

struct UnitsMapS8 {
    UnitsMapS8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("S8_v_d", "1") ;
        units_map_ptr->add_param("S8_v_f", "1") ;
        units_map_ptr->add_param("S8_v_c", "1") ;
        units_map_ptr->add_param("S8_v_uc", "1") ;
        units_map_ptr->add_param("S8_v_s", "1") ;
        units_map_ptr->add_param("S8_v_us", "1") ;
        units_map_ptr->add_param("S8_v_i", "1") ;
        units_map_ptr->add_param("S8_v_ui", "1") ;
        units_map_ptr->add_param("S8_v_l", "1") ;
        units_map_ptr->add_param("S8_v_ul", "1") ;
        units_map_ptr->add_param("S8_v_ll", "1") ;
        units_map_ptr->add_param("S8_v_ull", "1") ;
        units_map_ptr->add_param("S8_v_b", "1") ;
        units_map_ptr->add_param("S8_v_str", "1") ;
        units_map_ptr->add_param("S8_v_e", "1") ;
        units_map_ptr->add_param("S8_v_k", "1") ;
        units_map_ptr->add_param("S8_v_ne", "1") ;
        units_map_ptr->add_param("S8_v_w", "1") ;
        units_map_ptr->add_param("S8_v_u", "1") ;
        units_map_ptr->add_param("S8_v_v", "1") ;
        units_map_ptr->add_param("S8_v_in", "1") ;
        units_map_ptr->add_param("S8_v_up", "1") ;
        units_map_ptr->add_param("S8_v_dp", "1") ;
        units_map_ptr->add_param("S8_v_ip", "1") ;
        units_map_ptr->add_param("S8_v_sp", "1") ;
        units_map_ptr->add_param("S8_l_i", "1") ;
        units_map_ptr->add_param("S8_l_str", "1") ;
        units_map_ptr->add_param("S8_l_dp", "1") ;
        units_map_ptr->add_param("S8_d_d", "1") ;
        units_map_ptr->add_param("S8_d_str", "1") ;
        units_map_ptr->add_param("S8_s_i", "1") ;
        units_map_ptr->add_param("S8_s_str", "1") ;
        units_map_ptr->add_param("S8_ms_i", "1") ;
        units_map_ptr->add_param("S8_ms_str", "1") ;
        units_map_ptr->add_param("S8_s_ig", "1") ;
        units_map_ptr->add_param("S8_m_id", "1") ;
        units_map_ptr->add_param("S8_m_stri", "1") ;
        units_map_ptr->add_param("S8_m_strstr", "1") ;
        units_map_ptr->add_param("S8_m_iu", "1") ;
        units_map_ptr->add_param("S8_m_idp", "1") ;
        units_map_ptr->add_param("S8_m_ei", "1") ;
        units_map_ptr->add_param("S8_mm_ii", "1") ;
        units_map_ptr->add_param("S8_mm_strstr", "1") ;
        units_map_ptr->add_param("S8_m_bc", "1") ;
        units_map_ptr->add_param("S8_p_id", "1") ;
        units_map_ptr->add_param("S8_p_stri", "1") ;
        units_map_ptr->add_param("S8_p_strstr", "1") ;
        units_map_ptr->add_param("S8_p_pp", "1") ;
        units_map_ptr->add_param("S8_q_i", "1") ;
        units_map_ptr->add_param("S8_q_str", "1") ;
        units_map_ptr->add_param("S8_k_i", "1") ;
        units_map_ptr->add_param("S8_k_str", "1") ;
        units_map_ptr->add_param("S8_pq_i", "1") ;
        units_map_ptr->add_param("S8_pq_str", "1") ;
        units_map_ptr->add_param("S8_pq_ig", "1") ;
        units_map_ptr->add_param("S8_a_i", "1") ;
        units_map_ptr->add_param("S8_a_str", "1") ;
        units_map_ptr->add_param("S8_v_v_i", "1") ;
        units_map_ptr->add_param("S8_v_v_v_i", "1") ;
        units_map_ptr->add_param("S8_v_l_i", "1") ;
        units_map_ptr->add_param("S8_l_s_str", "1") ;
        units_map_ptr->add_param("S8_s_v_i", "1") ;
        units_map_ptr->add_param("S8_ms_p_ii", "1") ;
        units_map_ptr->add_param("S8_v_p_istr", "1") ;
        units_map_ptr->add_param("S8_s_m_sd", "1") ;
        units_map_ptr->add_param("S8_m_i_v_i", "1") ;
        units_map_ptr->add_param("S8_m_p_ii_i", "1") ;
        units_map_ptr->add_param("S8_m_p_p", "1") ;
        units_map_ptr->add_param("S8_m_v_v", "1") ;
        units_map_ptr->add_param("S8_mm_i_v_i", "1") ;
        units_map_ptr->add_param("S8_mm_v_i_i", "1") ;
        units_map_ptr->add_param("S8_mm_p_v", "1") ;
        units_map_ptr->add_param("S8_m_str_m", "1") ;
        units_map_ptr->add_param("S8_p_i_v", "1") ;
        units_map_ptr->add_param("S8_p_v_i", "1") ;
        units_map_ptr->add_param("S8_p_v_v", "1") ;
        units_map_ptr->add_param("S8_p_p_p", "1") ;
        units_map_ptr->add_param("S8_p_i_m", "1") ;
        units_map_ptr->add_param("S8_p_v_m", "1") ;
        units_map_ptr->add_param("S8_q_v_i", "1") ;
        units_map_ptr->add_param("S8_k_v_i", "1") ;
        units_map_ptr->add_param("S8_pq_v_i", "1") ;
        units_map_ptr->add_param("S8_a_v_i", "1") ;
        units_map_ptr->add_param("S8_v_a_i", "1") ;
        units_map_ptr->add_param("S8_v_k_i", "1") ;
        units_map_ptr->add_param("S8_v_q_i", "1") ;
        units_map_ptr->add_param("S8_v_pq_i", "1") ;
        units_map_ptr->add_param("S8_m_i_k", "1") ;
        units_map_ptr->add_param("S8_q_k_i", "1") ;
        units_map_ptr->add_param("S8_k_q_i", "1") ;
        units_map_ptr->add_param("S8_k_k_i", "1") ;
        units_map_ptr->add_param("S8_d_m_v_str", "1") ;
        units_map_ptr->add_param("S8_l_p_p", "1") ;
    }
} umS8;

extern "C" {

size_t get_stl_size_stl_E8_v(void* start_address);
void* get_stl_element_stl_E8_v(void* start_address, size_t index);
size_t get_stl_size_stl_E8_vv(void* start_address);
void* get_stl_element_stl_E8_vv(void* start_address, size_t index);
ATTRIBUTES attrE8[] = {
{"k", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m", "std::map<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, int>), 0, 0, Language_CPP, 0,
  32, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  80, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p", "std::pair<int, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  112, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vv", "std::vector<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<int> >), 0, 0, Language_CPP, 0,
  152, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_E8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_E8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_E8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_E8_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_E8_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_E8_v(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_E8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_E8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_E8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_E8_m(void* start_address) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_E8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_E8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_E8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_E8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_E8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_E8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_E8_vv(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_E8_vv(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_E8_vv(void* start_address, size_t index) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}

} //extern "C"


void init_attrE8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrE8[1].checkpoint_stl = checkpoint_stl_E8_v ;
    attrE8[1].post_checkpoint_stl = post_checkpoint_stl_E8_v ;
    attrE8[1].restore_stl = restore_stl_E8_v ;
    attrE8[1].clear_stl = clear_stl_E8_v ;
    attrE8[1].get_stl_size = get_stl_size_stl_E8_v ;
    attrE8[1].get_stl_element = get_stl_element_stl_E8_v ;
    attrE8[2].checkpoint_stl = checkpoint_stl_E8_m ;
    attrE8[2].post_checkpoint_stl = post_checkpoint_stl_E8_m ;
    attrE8[2].restore_stl = restore_stl_E8_m ;
    attrE8[2].clear_stl = clear_stl_E8_m ;
    attrE8[4].checkpoint_stl = checkpoint_stl_E8_p ;
    attrE8[4].post_checkpoint_stl = post_checkpoint_stl_E8_p ;
    attrE8[4].restore_stl = restore_stl_E8_p ;
    attrE8[5].checkpoint_stl = checkpoint_stl_E8_vv ;
    attrE8[5].post_checkpoint_stl = post_checkpoint_stl_E8_vv ;
    attrE8[5].restore_stl = restore_stl_E8_vv ;
    attrE8[5].clear_stl = clear_stl_E8_vv ;
    attrE8[5].get_stl_size = get_stl_size_stl_E8_vv ;
    attrE8[5].get_stl_element = get_stl_element_stl_E8_vv ;
}

extern "C" {

void init_attrE8_c_intf() {
    init_attrE8() ;
}

size_t io_src_sizeof_E8() {
    return sizeof(E8) ;
}

void* io_src_allocate_E8(int num) {
    E8* temp = (E8*)calloc(num, sizeof(E8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) E8();
    }
    return (void*)temp;
}

void io_src_destruct_E8(void* address __attribute__((unused)), int num __attribute__((unused))) {
E8* temp = (E8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~E8();
    }
}

void io_src_delete_E8(void* address) {
    delete (E8*)address;
}

} //extern "C"

struct UnitsMapE8 {
    UnitsMapE8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("E8_k", "1") ;
        units_map_ptr->add_param("E8_v", "1") ;
        units_map_ptr->add_param("E8_m", "1") ;
        units_map_ptr->add_param("E8_s", "1") ;
        units_map_ptr->add_param("E8_p", "1") ;
        units_map_ptr->add_param("E8_vv", "1") ;
    }
} umE8;

extern "C" {

size_t get_stl_size_stl_D8_v(void* start_address);
void* get_stl_element_stl_D8_v(void* start_address, size_t index);
size_t get_stl_size_stl_D8_vv(void* start_address);
void* get_stl_element_stl_D8_vv(void* start_address, size_t index);
ATTRIBUTES attrD8[] = {
{"k", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"v", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m", "std::map<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, int>), 0, 0, Language_CPP, 0,
  32, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  80, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p", "std::pair<int, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  112, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vv", "std::vector<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<int> >), 0, 0, Language_CPP, 0,
  152, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"st", "std::stack<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<int>), 0, 0, Language_CPP, 0,
  176, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_D8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_D8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_D8_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_D8_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_D8_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_D8_v(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_D8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_D8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_D8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_D8_m(void* start_address) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_D8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_D8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_D8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, std::basic_string<char> >* stl = reinterpret_cast<std::pair<int, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_D8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_D8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_D8_vv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_D8_vv(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_D8_vv(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_D8_vv(void* start_address, size_t index) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_D8_st(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_D8_st(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_D8_st(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}

} //extern "C"


void init_attrD8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrD8[1].checkpoint_stl = checkpoint_stl_D8_v ;
    attrD8[1].post_checkpoint_stl = post_checkpoint_stl_D8_v ;
    attrD8[1].restore_stl = restore_stl_D8_v ;
    attrD8[1].clear_stl = clear_stl_D8_v ;
    attrD8[1].get_stl_size = get_stl_size_stl_D8_v ;
    attrD8[1].get_stl_element = get_stl_element_stl_D8_v ;
    attrD8[2].checkpoint_stl = checkpoint_stl_D8_m ;
    attrD8[2].post_checkpoint_stl = post_checkpoint_stl_D8_m ;
    attrD8[2].restore_stl = restore_stl_D8_m ;
    attrD8[2].clear_stl = clear_stl_D8_m ;
    attrD8[4].checkpoint_stl = checkpoint_stl_D8_p ;
    attrD8[4].post_checkpoint_stl = post_checkpoint_stl_D8_p ;
    attrD8[4].restore_stl = restore_stl_D8_p ;
    attrD8[5].checkpoint_stl = checkpoint_stl_D8_vv ;
    attrD8[5].post_checkpoint_stl = post_checkpoint_stl_D8_vv ;
    attrD8[5].restore_stl = restore_stl_D8_vv ;
    attrD8[5].clear_stl = clear_stl_D8_vv ;
    attrD8[5].get_stl_size = get_stl_size_stl_D8_vv ;
    attrD8[5].get_stl_element = get_stl_element_stl_D8_vv ;
    attrD8[6].checkpoint_stl = checkpoint_stl_D8_st ;
    attrD8[6].post_checkpoint_stl = post_checkpoint_stl_D8_st ;
    attrD8[6].restore_stl = restore_stl_D8_st ;

    ATTRIBUTES temp_attr ;

    trick_MM->add_attr_info( std::string("E8"), &temp_attr , __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrD8_c_intf() {
    init_attrD8() ;
}

size_t io_src_sizeof_D8() {
    return sizeof(D8) ;
}

void* io_src_allocate_D8(int num) {
    D8* temp = (D8*)calloc(num, sizeof(D8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) D8();
    }
    return (void*)temp;
}

void io_src_destruct_D8(void* address __attribute__((unused)), int num __attribute__((unused))) {
D8* temp = (D8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~D8();
    }
}

void io_src_delete_D8(void* address) {
    delete (D8*)address;
}

} //extern "C"

struct UnitsMapD8 {
    UnitsMapD8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("D8_k", "1") ;
        units_map_ptr->add_param("D8_v", "1") ;
        units_map_ptr->add_param("D8_m", "1") ;
        units_map_ptr->add_param("D8_s", "1") ;
        units_map_ptr->add_param("D8_p", "1") ;
        units_map_ptr->add_param("D8_vv", "1") ;
        units_map_ptr->add_param("D8_st", "1") ;
    }
} umD8;

extern "C" {

ATTRIBUTES attrP8[] = {
{"n", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"e", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"arr", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  184, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"arr2", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  536, NULL, 2, {{2, 0}, {3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"arr3", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  1592, NULL, 3, {{2, 0}, {2, 0}, {2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ep", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  3000, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"epa", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  3008, NULL, 2, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d", "D8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  3024, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"epp", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  3280, NULL, 2, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrP8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrP8[1].type_name) , &attrP8[1], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[2].type_name) , &attrP8[2], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[3].type_name) , &attrP8[3], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[4].type_name) , &attrP8[4], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[5].type_name) , &attrP8[5], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[6].type_name) , &attrP8[6], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[7].type_name) , &attrP8[7], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrP8[8].type_name) , &attrP8[8], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrP8_c_intf() {
    init_attrP8() ;
}

size_t io_src_sizeof_P8() {
    return sizeof(P8) ;
}

void* io_src_allocate_P8(int num) {
    P8* temp = (P8*)calloc(num, sizeof(P8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) P8();
    }
    return (void*)temp;
}

void io_src_destruct_P8(void* address __attribute__((unused)), int num __attribute__((unused))) {
P8* temp = (P8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~P8();
    }
}

void io_src_delete_P8(void* address) {
    delete (P8*)address;
}

} //extern "C"

struct UnitsMapP8 {
    UnitsMapP8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("P8_n", "1") ;
        units_map_ptr->add_param("P8_e", "1") ;
        units_map_ptr->add_param("P8_arr", "1") ;
        units_map_ptr->add_param("P8_arr2", "1") ;
        units_map_ptr->add_param("P8_arr3", "1") ;
        units_map_ptr->add_param("P8_ep", "1") ;
        units_map_ptr->add_param("P8_epa", "1") ;
        units_map_ptr->add_param("P8_d", "1") ;
        units_map_ptr->add_param("P8_epp", "1") ;
    }
} umP8;

extern "C" {

size_t get_stl_size_stl_T8_sv(void* start_address);
void* get_stl_element_stl_T8_sv(void* start_address, size_t index);
ATTRIBUTES attrT8[] = {
{"i", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sv", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 2,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_T8_sv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_T8_sv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_T8_sv(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_T8_sv(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_T8_sv(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_T8_sv(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}

} //extern "C"


void init_attrT8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrT8[1].offset = (long)(void *)&T8::sv ;
    attrT8[1].checkpoint_stl = checkpoint_stl_T8_sv ;
    attrT8[1].post_checkpoint_stl = post_checkpoint_stl_T8_sv ;
    attrT8[1].restore_stl = restore_stl_T8_sv ;
    attrT8[1].clear_stl = clear_stl_T8_sv ;
    attrT8[1].get_stl_size = get_stl_size_stl_T8_sv ;
    attrT8[1].get_stl_element = get_stl_element_stl_T8_sv ;
}

extern "C" {

void init_attrT8_c_intf() {
    init_attrT8() ;
}

size_t io_src_sizeof_T8() {
    return sizeof(T8) ;
}

void* io_src_allocate_T8(int num) {
    T8* temp = (T8*)calloc(num, sizeof(T8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) T8();
    }
    return (void*)temp;
}

void io_src_destruct_T8(void* address __attribute__((unused)), int num __attribute__((unused))) {
T8* temp = (T8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~T8();
    }
}

void io_src_delete_T8(void* address) {
    delete (T8*)address;
}

} //extern "C"

struct UnitsMapT8 {
    UnitsMapT8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("T8_i", "1") ;
        units_map_ptr->add_param("T8_sv", "1") ;
    }
} umT8;

extern "C" {

size_t get_stl_size_stl_R8_rw(void* start_address);
void* get_stl_element_stl_R8_rw(void* start_address, size_t index);
size_t get_stl_size_stl_R8_ro(void* start_address);
void* get_stl_element_stl_R8_ro(void* start_address, size_t index);
size_t get_stl_size_stl_R8_wo(void* start_address);
void* get_stl_element_stl_R8_wo(void* start_address, size_t index);
ATTRIBUTES attrR8[] = {
{"rw", "std::vector<int>", "1", "", "",
  "both",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 4,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ro", "std::vector<int>", "1", "", "",
  "output only",
  5,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 4,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"wo", "std::vector<int>", "1", "", "",
  "input only",
  10,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 4,
  72, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m", "std::map<int, int>", "1", "", "",
  "both",
  15,TRICK_STL, sizeof(std::map<int, int>), 0, 0, Language_CPP, 4,
  96, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_R8_rw(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_R8_rw(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_R8_rw(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_R8_rw(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_R8_rw(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_R8_rw(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_R8_ro(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_R8_ro(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
size_t get_stl_size_stl_R8_ro(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_R8_ro(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void restore_stl_R8_wo(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_R8_wo(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_R8_wo(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_R8_wo(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_R8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_R8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_R8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_R8_m(void* start_address) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    stl->clear();
}

} //extern "C"


void init_attrR8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrR8[0].checkpoint_stl = checkpoint_stl_R8_rw ;
    attrR8[0].post_checkpoint_stl = post_checkpoint_stl_R8_rw ;
    attrR8[0].restore_stl = restore_stl_R8_rw ;
    attrR8[0].clear_stl = clear_stl_R8_rw ;
    attrR8[0].get_stl_size = get_stl_size_stl_R8_rw ;
    attrR8[0].get_stl_element = get_stl_element_stl_R8_rw ;
    attrR8[1].checkpoint_stl = checkpoint_stl_R8_ro ;
    attrR8[1].post_checkpoint_stl = post_checkpoint_stl_R8_ro ;
    attrR8[1].get_stl_size = get_stl_size_stl_R8_ro ;
    attrR8[1].get_stl_element = get_stl_element_stl_R8_ro ;
    attrR8[2].restore_stl = restore_stl_R8_wo ;
    attrR8[2].clear_stl = clear_stl_R8_wo ;
    attrR8[2].get_stl_size = get_stl_size_stl_R8_wo ;
    attrR8[2].get_stl_element = get_stl_element_stl_R8_wo ;
    attrR8[3].checkpoint_stl = checkpoint_stl_R8_m ;
    attrR8[3].post_checkpoint_stl = post_checkpoint_stl_R8_m ;
    attrR8[3].restore_stl = restore_stl_R8_m ;
    attrR8[3].clear_stl = clear_stl_R8_m ;
}

extern "C" {

void init_attrR8_c_intf() {
    init_attrR8() ;
}

size_t io_src_sizeof_R8() {
    return sizeof(R8) ;
}

void* io_src_allocate_R8(int num) {
    R8* temp = (R8*)calloc(num, sizeof(R8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) R8();
    }
    return (void*)temp;
}

void io_src_destruct_R8(void* address __attribute__((unused)), int num __attribute__((unused))) {
R8* temp = (R8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~R8();
    }
}

void io_src_delete_R8(void* address) {
    delete (R8*)address;
}

} //extern "C"

struct UnitsMapR8 {
    UnitsMapR8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("R8_rw", "1") ;
        units_map_ptr->add_param("R8_ro", "1") ;
        units_map_ptr->add_param("R8_wo", "1") ;
        units_map_ptr->add_param("R8_m", "1") ;
    }
} umR8;

extern "C" {

size_t get_stl_size_stl_C8_x(void* start_address);
void* get_stl_element_stl_C8_x(void* start_address, size_t index);
size_t get_stl_size_stl_C8_x_0(void* start_address);
void* get_stl_element_stl_C8_x_0(void* start_address, size_t index);
size_t get_stl_size_stl_C8_m_keys(void* start_address);
void* get_stl_element_stl_C8_m_keys(void* start_address, size_t index);
size_t get_stl_size_stl_C8_m_data(void* start_address);
void* get_stl_element_stl_C8_m_data(void* start_address, size_t index);
size_t get_stl_size_stl_C8_p_first(void* start_address);
void* get_stl_element_stl_C8_p_first(void* start_address, size_t index);
size_t get_stl_size_stl_C8_b_v(void* start_address);
void* get_stl_element_stl_C8_b_v(void* start_address, size_t index);
ATTRIBUTES attrC8[] = {
{"x", "std::vector<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<int> >), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"x_0", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m", "std::map<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, int>), 0, 0, Language_CPP, 0,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_keys", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  96, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m_data", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  120, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p", "std::pair<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, int>), 0, 0, Language_CPP, 0,
  144, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p_first", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  152, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"b", "E8", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  176, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"b_v", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  352, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_C8_x(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_x(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_x(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_x(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_x(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_x(void* start_address, size_t index) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_C8_x_0(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_x_0(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_x_0(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_x_0(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_x_0(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_x_0(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_C8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_m(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_m(void* start_address) {
    std::map<int, int>* stl = reinterpret_cast<std::map<int, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_C8_m_keys(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_m_keys(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_m_keys(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_m_keys(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_m_keys(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_m_keys(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_C8_m_data(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_m_data(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_m_data(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_m_data(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_m_data(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_m_data(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_C8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, int>* stl = reinterpret_cast<std::pair<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, int>* stl = reinterpret_cast<std::pair<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_p(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, int>* stl = reinterpret_cast<std::pair<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_C8_p_first(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_p_first(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_p_first(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_p_first(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_p_first(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_p_first(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_C8_b_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_C8_b_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_C8_b_v(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_C8_b_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_C8_b_v(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_C8_b_v(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}

} //extern "C"


void init_attrC8() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrC8[0].checkpoint_stl = checkpoint_stl_C8_x ;
    attrC8[0].post_checkpoint_stl = post_checkpoint_stl_C8_x ;
    attrC8[0].restore_stl = restore_stl_C8_x ;
    attrC8[0].clear_stl = clear_stl_C8_x ;
    attrC8[0].get_stl_size = get_stl_size_stl_C8_x ;
    attrC8[0].get_stl_element = get_stl_element_stl_C8_x ;
    attrC8[1].checkpoint_stl = checkpoint_stl_C8_x_0 ;
    attrC8[1].post_checkpoint_stl = post_checkpoint_stl_C8_x_0 ;
    attrC8[1].restore_stl = restore_stl_C8_x_0 ;
    attrC8[1].clear_stl = clear_stl_C8_x_0 ;
    attrC8[1].get_stl_size = get_stl_size_stl_C8_x_0 ;
    attrC8[1].get_stl_element = get_stl_element_stl_C8_x_0 ;
    attrC8[2].checkpoint_stl = checkpoint_stl_C8_m ;
    attrC8[2].post_checkpoint_stl = post_checkpoint_stl_C8_m ;
    attrC8[2].restore_stl = restore_stl_C8_m ;
    attrC8[2].clear_stl = clear_stl_C8_m ;
    attrC8[3].checkpoint_stl = checkpoint_stl_C8_m_keys ;
    attrC8[3].post_checkpoint_stl = post_checkpoint_stl_C8_m_keys ;
    attrC8[3].restore_stl = restore_stl_C8_m_keys ;
    attrC8[3].clear_stl = clear_stl_C8_m_keys ;
    attrC8[3].get_stl_size = get_stl_size_stl_C8_m_keys ;
    attrC8[3].get_stl_element = get_stl_element_stl_C8_m_keys ;
    attrC8[4].checkpoint_stl = checkpoint_stl_C8_m_data ;
    attrC8[4].post_checkpoint_stl = post_checkpoint_stl_C8_m_data ;
    attrC8[4].restore_stl = restore_stl_C8_m_data ;
    attrC8[4].clear_stl = clear_stl_C8_m_data ;
    attrC8[4].get_stl_size = get_stl_size_stl_C8_m_data ;
    attrC8[4].get_stl_element = get_stl_element_stl_C8_m_data ;
    attrC8[5].checkpoint_stl = checkpoint_stl_C8_p ;
    attrC8[5].post_checkpoint_stl = post_checkpoint_stl_C8_p ;
    attrC8[5].restore_stl = restore_stl_C8_p ;
    attrC8[6].checkpoint_stl = checkpoint_stl_C8_p_first ;
    attrC8[6].post_checkpoint_stl = post_checkpoint_stl_C8_p_first ;
    attrC8[6].restore_stl = restore_stl_C8_p_first ;
    attrC8[6].clear_stl = clear_stl_C8_p_first ;
    attrC8[6].get_stl_size = get_stl_size_stl_C8_p_first ;
    attrC8[6].get_stl_element = get_stl_element_stl_C8_p_first ;
    trick_MM->add_attr_info(std::string(attrC8[7].type_name) , &attrC8[7], __FILE__ , __LINE__ ) ;
    attrC8[8].checkpoint_stl = checkpoint_stl_C8_b_v ;
    attrC8[8].post_checkpoint_stl = post_checkpoint_stl_C8_b_v ;
    attrC8[8].restore_stl = restore_stl_C8_b_v ;
    attrC8[8].clear_stl = clear_stl_C8_b_v ;
    attrC8[8].get_stl_size = get_stl_size_stl_C8_b_v ;
    attrC8[8].get_stl_element = get_stl_element_stl_C8_b_v ;
}

extern "C" {

void init_attrC8_c_intf() {
    init_attrC8() ;
}

size_t io_src_sizeof_C8() {
    return sizeof(C8) ;
}

void* io_src_allocate_C8(int num) {
    C8* temp = (C8*)calloc(num, sizeof(C8));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) C8();
    }
    return (void*)temp;
}

void io_src_destruct_C8(void* address __attribute__((unused)), int num __attribute__((unused))) {
C8* temp = (C8*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~C8();
    }
}

void io_src_delete_C8(void* address) {
    delete (C8*)address;
}

} //extern "C"

struct UnitsMapC8 {
    UnitsMapC8() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("C8_x", "1") ;
        units_map_ptr->add_param("C8_x_0", "1") ;
        units_map_ptr->add_param("C8_m", "1") ;
        units_map_ptr->add_param("C8_m_keys", "1") ;
        units_map_ptr->add_param("C8_m_data", "1") ;
        units_map_ptr->add_param("C8_p", "1") ;
        units_map_ptr->add_param("C8_p_first", "1") ;
        units_map_ptr->add_param("C8_b", "1") ;
        units_map_ptr->add_param("C8_b_v", "1") ;
    }
} umC8;

