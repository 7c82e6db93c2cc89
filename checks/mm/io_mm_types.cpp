/**
 * This file was automatically generated by the ICG based on the file:
 * mm_types.hh
 * This file contains database parameter declarations specific to the
 * data structures and enumerated types declared in the above file.
 * These database parameters are used by the Trick input and
 * data recording processors to gain access to important simulation
 * variable information.
 */

#define TRICK_IN_IOSRC
#include <stdlib.h>
#include "trick/MemoryManager.hh"
#include "trick/attributes.h"
#include "trick/parameter_types.h"
#include "trick/ClassSizeCheck.hh"
#include "trick/UnitsMap.hh"
#include "trick/checkpoint_stl.hh"
#include "mm_types.hh"

extern "C" {

ENUM_ATTR enumMMColor[] = {
{"MM_RED", 0, 0x0},
{"MM_GREEN", 5, 0x0},
{"MM_BLUE", -3, 0x0},
{"", 0, 0x0}
};

} //extern "C"

extern "C" {

size_t io_src_sizeof_MMColor( void ) {
    return sizeof(MMColor);
}

} //extern "C"

extern "C" {

ENUM_ATTR enummmns__Kind[] = {
{"mmns::one", 1, 0x0},
{"mmns::two", 2, 0x0},
{"", 0, 0x0}
};

} //extern "C"

extern "C" {

size_t io_src_sizeof_mmns__Kind( void ) {
    return sizeof(mmns::Kind);
}

} //extern "C"

extern "C" {

ATTRIBUTES attrmmns__Nested[] = {
{"x", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"y", "float", "1", "", "",
  "",
  15,TRICK_FLOAT, sizeof(float), 0, 0, Language_CPP, 0,
  4, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

namespace mmns {

void init_attrmmns__Nested() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}
}

extern "C" {

void init_attrmmns__Nested_c_intf() {
    mmns::init_attrmmns__Nested() ;
}

size_t io_src_sizeof_mmns__Nested() {
    return sizeof(mmns::Nested) ;
}

void* io_src_allocate_mmns__Nested(int num) {
    mmns::Nested* temp = (mmns::Nested*)calloc(num, sizeof(mmns::Nested));
    return (void*)temp;
}

void io_src_destruct_mmns__Nested(void* address __attribute__((unused)), int num __attribute__((unused))) {
}

void io_src_delete_mmns__Nested(void* address __attribute__((unused))) {}

} //extern "C"

struct UnitsMapmmns__Nested {
    UnitsMapmmns__Nested() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("Nested_x", "1") ;
        units_map_ptr->add_param("Nested_y", "1") ;
    }
} ummmns__Nested;

extern "C" {

ATTRIBUTES attrMMInner[] = {
{"i", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  8, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"c", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  24, NULL, 1, {{4, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMInner() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}

extern "C" {

void init_attrMMInner_c_intf() {
    init_attrMMInner() ;
}

size_t io_src_sizeof_MMInner() {
    return sizeof(MMInner) ;
}

void* io_src_allocate_MMInner(int num) {
    MMInner* temp = (MMInner*)calloc(num, sizeof(MMInner));
    return (void*)temp;
}

void io_src_destruct_MMInner(void* address __attribute__((unused)), int num __attribute__((unused))) {
}

void io_src_delete_MMInner(void* address __attribute__((unused))) {}

} //extern "C"

struct UnitsMapMMInner {
    UnitsMapMMInner() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMInner_i", "1") ;
        units_map_ptr->add_param("MMInner_d", "1") ;
        units_map_ptr->add_param("MMInner_c", "1") ;
    }
} umMMInner;

extern "C" {

ATTRIBUTES attrMMBase[] = {
{"base_i", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"bs", "short", "1", "", "",
  "",
  15,TRICK_SHORT, sizeof(short), 0, 0, Language_CPP, 0,
  12, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"bp", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  16, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMBase() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}

extern "C" {

void init_attrMMBase_c_intf() {
    init_attrMMBase() ;
}

size_t io_src_sizeof_MMBase() {
    return sizeof(MMBase) ;
}

void* io_src_allocate_MMBase(int num) {
    MMBase* temp = (MMBase*)calloc(num, sizeof(MMBase));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMBase();
    }
    return (void*)temp;
}

void io_src_destruct_MMBase(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMBase* temp = (MMBase*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMBase();
    }
}

void io_src_delete_MMBase(void* address) {
    delete (MMBase*)address;
}

} //extern "C"

struct UnitsMapMMBase {
    UnitsMapMMBase() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMBase_base_i", "1") ;
        units_map_ptr->add_param("MMBase_bs", "1") ;
        units_map_ptr->add_param("MMBase_bp", "1") ;
    }
} umMMBase;

extern "C" {

ATTRIBUTES attrMMMix[] = {
{"mixv", "long", "1", "", "",
  "",
  15,TRICK_LONG, sizeof(long), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mixa", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  8, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMMix() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}

extern "C" {

void init_attrMMMix_c_intf() {
    init_attrMMMix() ;
}

size_t io_src_sizeof_MMMix() {
    return sizeof(MMMix) ;
}

void* io_src_allocate_MMMix(int num) {
    MMMix* temp = (MMMix*)calloc(num, sizeof(MMMix));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMMix();
    }
    return (void*)temp;
}

void io_src_destruct_MMMix(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMMix* temp = (MMMix*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMMix();
    }
}

void io_src_delete_MMMix(void* address) {
    delete (MMMix*)address;
}

} //extern "C"

struct UnitsMapMMMix {
    UnitsMapMMMix() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMMix_mixv", "1") ;
        units_map_ptr->add_param("MMMix_mixa", "1") ;
    }
} umMMMix;

extern "C" {

ATTRIBUTES attrMMDeriv[] = {
{"base_i", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"bs", "short", "1", "", "",
  "",
  15,TRICK_SHORT, sizeof(short), 0, 0, Language_CPP, 0,
  12, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"bp", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  16, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mixv", "long", "1", "", "",
  "",
  15,TRICK_LONG, sizeof(long), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mixa", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  32, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"di", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  40, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"u3", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_BITFIELD, 4, 0, 0, Language_CPP, 0,
  44, NULL, 0, {{3, 29}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s5", "int", "1", "", "",
  "",
  15,TRICK_BITFIELD, 4, 0, 0, Language_CPP, 0,
  44, NULL, 0, {{5, 24}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"u1", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_BITFIELD, 4, 0, 0, Language_CPP, 0,
  44, NULL, 0, {{1, 23}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"u23", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_BITFIELD, 4, 0, 0, Language_CPP, 0,
  44, NULL, 0, {{23, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"in", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dip", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  80, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMDeriv() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrMMDeriv[10].type_name) , &attrMMDeriv[10], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMDeriv[11].type_name) , &attrMMDeriv[11], __FILE__ , __LINE__ ) ;

    ATTRIBUTES temp_attr ;

    trick_MM->add_attr_info( std::string("MMBase"), &temp_attr , __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info( std::string("MMMix"), &temp_attr , __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrMMDeriv_c_intf() {
    init_attrMMDeriv() ;
}

size_t io_src_sizeof_MMDeriv() {
    return sizeof(MMDeriv) ;
}

void* io_src_allocate_MMDeriv(int num) {
    MMDeriv* temp = (MMDeriv*)calloc(num, sizeof(MMDeriv));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMDeriv();
    }
    return (void*)temp;
}

void io_src_destruct_MMDeriv(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMDeriv* temp = (MMDeriv*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMDeriv();
    }
}

void io_src_delete_MMDeriv(void* address) {
    delete (MMDeriv*)address;
}

} //extern "C"

struct UnitsMapMMDeriv {
    UnitsMapMMDeriv() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMDeriv_base_i", "1") ;
        units_map_ptr->add_param("MMDeriv_bs", "1") ;
        units_map_ptr->add_param("MMDeriv_bp", "1") ;
        units_map_ptr->add_param("MMDeriv_mixv", "1") ;
        units_map_ptr->add_param("MMDeriv_mixa", "1") ;
        units_map_ptr->add_param("MMDeriv_di", "1") ;
        units_map_ptr->add_param("MMDeriv_u3", "1") ;
        units_map_ptr->add_param("MMDeriv_s5", "1") ;
        units_map_ptr->add_param("MMDeriv_u1", "1") ;
        units_map_ptr->add_param("MMDeriv_u23", "1") ;
        units_map_ptr->add_param("MMDeriv_in", "1") ;
        units_map_ptr->add_param("MMDeriv_dip", "1") ;
    }
} umMMDeriv;

extern "C" {

ATTRIBUTES attrMMOuter[] = {
{"in", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"arr", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  32, NULL, 2, {{2, 0}, {3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"p", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  224, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pa", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  232, NULL, 2, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pp", "MMInner", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  248, NULL, 2, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dp", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  256, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  264, NULL, 2, {{2, 0}, {3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pm", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  312, NULL, 2, {{0, 0}, {3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dpp", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  320, NULL, 2, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  328, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sa", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  336, NULL, 2, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"str", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  352, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"strs", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  384, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"col", "MMColor", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  448, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"cols", "MMColor", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  452, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"kind", "mmns::Kind", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  460, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"flag", "bool", "1", "", "",
  "",
  15,TRICK_BOOLEAN, sizeof(bool), 0, 0, Language_CPP, 0,
  462, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"flags", "bool", "1", "", "",
  "",
  15,TRICK_BOOLEAN, sizeof(bool), 0, 0, Language_CPP, 0,
  463, NULL, 1, {{3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ns", "mmns::Nested", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  468, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"next", "MMOuter", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  480, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"der", "MMDeriv", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  496, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"wc", "wchar_t", "1", "", "",
  "",
  15,TRICK_WCHAR, sizeof(wchar_t), 0, 0, Language_CPP, 0,
  584, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sp", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  592, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMOuter() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrMMOuter[0].type_name) , &attrMMOuter[0], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[1].type_name) , &attrMMOuter[1], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[2].type_name) , &attrMMOuter[2], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[3].type_name) , &attrMMOuter[3], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[4].type_name) , &attrMMOuter[4], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[13].type_name) , &attrMMOuter[13], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[14].type_name) , &attrMMOuter[14], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[15].type_name) , &attrMMOuter[15], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[18].type_name) , &attrMMOuter[18], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[19].type_name) , &attrMMOuter[19], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMOuter[20].type_name) , &attrMMOuter[20], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrMMOuter_c_intf() {
    init_attrMMOuter() ;
}

size_t io_src_sizeof_MMOuter() {
    return sizeof(MMOuter) ;
}

void* io_src_allocate_MMOuter(int num) {
    MMOuter* temp = (MMOuter*)calloc(num, sizeof(MMOuter));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMOuter();
    }
    return (void*)temp;
}

void io_src_destruct_MMOuter(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMOuter* temp = (MMOuter*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMOuter();
    }
}

void io_src_delete_MMOuter(void* address) {
    delete (MMOuter*)address;
}

} //extern "C"

struct UnitsMapMMOuter {
    UnitsMapMMOuter() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMOuter_in", "1") ;
        units_map_ptr->add_param("MMOuter_arr", "1") ;
        units_map_ptr->add_param("MMOuter_p", "1") ;
        units_map_ptr->add_param("MMOuter_pa", "1") ;
        units_map_ptr->add_param("MMOuter_pp", "1") ;
        units_map_ptr->add_param("MMOuter_dp", "1") ;
        units_map_ptr->add_param("MMOuter_m", "1") ;
        units_map_ptr->add_param("MMOuter_pm", "1") ;
        units_map_ptr->add_param("MMOuter_dpp", "1") ;
        units_map_ptr->add_param("MMOuter_s", "1") ;
        units_map_ptr->add_param("MMOuter_sa", "1") ;
        units_map_ptr->add_param("MMOuter_str", "1") ;
        units_map_ptr->add_param("MMOuter_strs", "1") ;
        units_map_ptr->add_param("MMOuter_col", "1") ;
        units_map_ptr->add_param("MMOuter_cols", "1") ;
        units_map_ptr->add_param("MMOuter_kind", "1") ;
        units_map_ptr->add_param("MMOuter_flag", "1") ;
        units_map_ptr->add_param("MMOuter_flags", "1") ;
        units_map_ptr->add_param("MMOuter_ns", "1") ;
        units_map_ptr->add_param("MMOuter_next", "1") ;
        units_map_ptr->add_param("MMOuter_der", "1") ;
        units_map_ptr->add_param("MMOuter_wc", "1") ;
        units_map_ptr->add_param("MMOuter_sp", "1") ;
    }
} umMMOuter;

extern "C" {

ATTRIBUTES attrMMScalars[] = {
{"c", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"uc", "unsigned char", "1", "", "",
  "",
  15,TRICK_UNSIGNED_CHARACTER, sizeof(unsigned char), 0, 0, Language_CPP, 0,
  1, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s", "short", "1", "", "",
  "",
  15,TRICK_SHORT, sizeof(short), 0, 0, Language_CPP, 0,
  2, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"us", "unsigned short", "1", "", "",
  "",
  15,TRICK_UNSIGNED_SHORT, sizeof(unsigned short), 0, 0, Language_CPP, 0,
  4, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"i", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ui", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_INTEGER, sizeof(unsigned int), 0, 0, Language_CPP, 0,
  12, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l", "long", "1", "", "",
  "",
  15,TRICK_LONG, sizeof(long), 0, 0, Language_CPP, 0,
  16, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ul", "unsigned long", "1", "", "",
  "",
  15,TRICK_UNSIGNED_LONG, sizeof(unsigned long), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ll", "long long", "1", "", "",
  "",
  15,TRICK_LONG_LONG, sizeof(long long), 0, 0, Language_CPP, 0,
  32, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ull", "unsigned long long", "1", "", "",
  "",
  15,TRICK_UNSIGNED_LONG_LONG, sizeof(unsigned long long), 0, 0, Language_CPP, 0,
  40, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"f", "float", "1", "", "",
  "",
  15,TRICK_FLOAT, sizeof(float), 0, 0, Language_CPP, 0,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"d", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  56, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"b", "bool", "1", "", "",
  "",
  15,TRICK_BOOLEAN, sizeof(bool), 0, 0, Language_CPP, 0,
  64, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"e", "MMColor", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  68, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"w", "wchar_t", "1", "", "",
  "",
  15,TRICK_WCHAR, sizeof(wchar_t), 0, 0, Language_CPP, 0,
  72, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ia", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  76, NULL, 2, {{2, 0}, {2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ca", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  92, NULL, 1, {{6, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"fa", "float", "1", "", "",
  "",
  15,TRICK_FLOAT, sizeof(float), 0, 0, Language_CPP, 0,
  100, NULL, 1, {{3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"da", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  112, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"uca", "unsigned char", "1", "", "",
  "",
  15,TRICK_UNSIGNED_CHARACTER, sizeof(unsigned char), 0, 0, Language_CPP, 0,
  128, NULL, 1, {{3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"wa", "wchar_t", "1", "", "",
  "",
  15,TRICK_WCHAR, sizeof(wchar_t), 0, 0, Language_CPP, 0,
  132, NULL, 1, {{4, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"u3", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_BITFIELD, 4, 0, 0, Language_CPP, 0,
  148, NULL, 0, {{3, 29}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s5", "int", "1", "", "",
  "",
  15,TRICK_BITFIELD, 4, 0, 0, Language_CPP, 0,
  148, NULL, 0, {{5, 24}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"u24", "unsigned int", "1", "", "",
  "",
  15,TRICK_UNSIGNED_BITFIELD, 4, 0, 0, Language_CPP, 0,
  148, NULL, 0, {{24, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"str", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 0,
  152, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"cp", "char", "1", "", "",
  "",
  15,TRICK_CHARACTER, sizeof(char), 0, 0, Language_CPP, 0,
  184, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dp", "double", "1", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  192, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ip", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  200, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"k", "mmns::Kind", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  208, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sha", "short", "1", "", "",
  "",
  15,TRICK_SHORT, sizeof(short), 0, 0, Language_CPP, 0,
  210, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"la", "long", "1", "", "",
  "",
  15,TRICK_LONG, sizeof(long), 0, 0, Language_CPP, 0,
  216, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ba", "bool", "1", "", "",
  "",
  15,TRICK_BOOLEAN, sizeof(bool), 0, 0, Language_CPP, 0,
  232, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ea", "MMColor", "1", "", "",
  "",
  15,TRICK_ENUMERATED, 0, 0, 0, Language_CPP, 0,
  236, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ulla", "unsigned long long", "1", "", "",
  "",
  15,TRICK_UNSIGNED_LONG_LONG, sizeof(unsigned long long), 0, 0, Language_CPP, 0,
  248, NULL, 1, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMScalars() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrMMScalars[13].type_name) , &attrMMScalars[13], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMScalars[28].type_name) , &attrMMScalars[28], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMScalars[32].type_name) , &attrMMScalars[32], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrMMScalars_c_intf() {
    init_attrMMScalars() ;
}

size_t io_src_sizeof_MMScalars() {
    return sizeof(MMScalars) ;
}

void* io_src_allocate_MMScalars(int num) {
    MMScalars* temp = (MMScalars*)calloc(num, sizeof(MMScalars));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMScalars();
    }
    return (void*)temp;
}

void io_src_destruct_MMScalars(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMScalars* temp = (MMScalars*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMScalars();
    }
}

void io_src_delete_MMScalars(void* address) {
    delete (MMScalars*)address;
}

} //extern "C"

struct UnitsMapMMScalars {
    UnitsMapMMScalars() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMScalars_c", "1") ;
        units_map_ptr->add_param("MMScalars_uc", "1") ;
        units_map_ptr->add_param("MMScalars_s", "1") ;
        units_map_ptr->add_param("MMScalars_us", "1") ;
        units_map_ptr->add_param("MMScalars_i", "1") ;
        units_map_ptr->add_param("MMScalars_ui", "1") ;
        units_map_ptr->add_param("MMScalars_l", "1") ;
        units_map_ptr->add_param("MMScalars_ul", "1") ;
        units_map_ptr->add_param("MMScalars_ll", "1") ;
        units_map_ptr->add_param("MMScalars_ull", "1") ;
        units_map_ptr->add_param("MMScalars_f", "1") ;
        units_map_ptr->add_param("MMScalars_d", "1") ;
        units_map_ptr->add_param("MMScalars_b", "1") ;
        units_map_ptr->add_param("MMScalars_e", "1") ;
        units_map_ptr->add_param("MMScalars_w", "1") ;
        units_map_ptr->add_param("MMScalars_ia", "1") ;
        units_map_ptr->add_param("MMScalars_ca", "1") ;
        units_map_ptr->add_param("MMScalars_fa", "1") ;
        units_map_ptr->add_param("MMScalars_da", "1") ;
        units_map_ptr->add_param("MMScalars_uca", "1") ;
        units_map_ptr->add_param("MMScalars_wa", "1") ;
        units_map_ptr->add_param("MMScalars_u3", "1") ;
        units_map_ptr->add_param("MMScalars_s5", "1") ;
        units_map_ptr->add_param("MMScalars_u24", "1") ;
        units_map_ptr->add_param("MMScalars_str", "1") ;
        units_map_ptr->add_param("MMScalars_cp", "1") ;
        units_map_ptr->add_param("MMScalars_dp", "1") ;
        units_map_ptr->add_param("MMScalars_ip", "1") ;
        units_map_ptr->add_param("MMScalars_k", "1") ;
        units_map_ptr->add_param("MMScalars_sha", "1") ;
        units_map_ptr->add_param("MMScalars_la", "1") ;
        units_map_ptr->add_param("MMScalars_ba", "1") ;
        units_map_ptr->add_param("MMScalars_ea", "1") ;
        units_map_ptr->add_param("MMScalars_ulla", "1") ;
    }
} umMMScalars;

extern "C" {

ATTRIBUTES attrMMPerm[] = {
{"rw", "int", "1", "", "",
  "both",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 4,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ro", "int", "1", "", "",
  "checkpoint output only",
  5,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 4,
  4, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"wo", "int", "1", "", "",
  "checkpoint input only",
  10,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 4,
  12, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMPerm() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}

extern "C" {

void init_attrMMPerm_c_intf() {
    init_attrMMPerm() ;
}

size_t io_src_sizeof_MMPerm() {
    return sizeof(MMPerm) ;
}

void* io_src_allocate_MMPerm(int num) {
    MMPerm* temp = (MMPerm*)calloc(num, sizeof(MMPerm));
    return (void*)temp;
}

void io_src_destruct_MMPerm(void* address __attribute__((unused)), int num __attribute__((unused))) {
}

void io_src_delete_MMPerm(void* address __attribute__((unused))) {}

} //extern "C"

struct UnitsMapMMPerm {
    UnitsMapMMPerm() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMPerm_rw", "1") ;
        units_map_ptr->add_param("MMPerm_ro", "1") ;
        units_map_ptr->add_param("MMPerm_wo", "1") ;
    }
} umMMPerm;

extern "C" {

ATTRIBUTES attrMMNode[] = {
{"v", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"l", "MMNode", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  8, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"r", "MMNode", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  16, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"kids", "MMNode", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  24, NULL, 2, {{2, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ref", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  40, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"own", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  48, NULL, 1, {{3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMNode() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrMMNode[1].type_name) , &attrMMNode[1], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMNode[2].type_name) , &attrMMNode[2], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMNode[3].type_name) , &attrMMNode[3], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrMMNode_c_intf() {
    init_attrMMNode() ;
}

size_t io_src_sizeof_MMNode() {
    return sizeof(MMNode) ;
}

void* io_src_allocate_MMNode(int num) {
    MMNode* temp = (MMNode*)calloc(num, sizeof(MMNode));
    return (void*)temp;
}

void io_src_destruct_MMNode(void* address __attribute__((unused)), int num __attribute__((unused))) {
}

void io_src_delete_MMNode(void* address __attribute__((unused))) {}

} //extern "C"

struct UnitsMapMMNode {
    UnitsMapMMNode() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMNode_v", "1") ;
        units_map_ptr->add_param("MMNode_l", "1") ;
        units_map_ptr->add_param("MMNode_r", "1") ;
        units_map_ptr->add_param("MMNode_kids", "1") ;
        units_map_ptr->add_param("MMNode_ref", "1") ;
        units_map_ptr->add_param("MMNode_own", "1") ;
    }
} umMMNode;

