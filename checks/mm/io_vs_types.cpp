/**
 * This file was automatically generated by the ICG based on the file:
 * vs_types.hh
 * This file contains database parameter declarations specific to the
 * data structures and enumerated types declared in the above file.
 * These database parameters are used by the Trick input and
 * data recording processors to gain access to important simulation
 * variable information.
 */

#define TRICK_IN_IOSRC
#include <stdlib.h>
#include "trick/MemoryManager.hh"
#include "trick/attributes.h"
#include "trick/parameter_types.h"
#include "trick/ClassSizeCheck.hh"
#include "trick/UnitsMap.hh"
#include "trick/checkpoint_stl.hh"
#include "vs_types.hh"

extern "C" {

ATTRIBUTES attrVSPoint[] = {
{"x", "double", "degree", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"w", "float", "degree", "", "",
  "",
  15,TRICK_FLOAT, sizeof(float), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrVSPoint() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

}

extern "C" {

void init_attrVSPoint_c_intf() {
    init_attrVSPoint() ;
}

size_t io_src_sizeof_VSPoint() {
    return sizeof(VSPoint) ;
}

void* io_src_allocate_VSPoint(int num) {
    VSPoint* temp = (VSPoint*)calloc(num, sizeof(VSPoint));
    return (void*)temp;
}

void io_src_destruct_VSPoint(void* address __attribute__((unused)), int num __attribute__((unused))) {
}

void io_src_delete_VSPoint(void* address __attribute__((unused))) {}

} //extern "C"

struct UnitsMapVSPoint {
    UnitsMapVSPoint() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("VSPoint_x", "degree") ;
        units_map_ptr->add_param("VSPoint_w", "degree") ;
    }
} umVSPoint;

extern "C" {

size_t get_stl_size_stl_VSU_vd(void* start_address);
void* get_stl_element_stl_VSU_vd(void* start_address, size_t index);
size_t get_stl_size_stl_VSU_vs(void* start_address);
void* get_stl_element_stl_VSU_vs(void* start_address, size_t index);
size_t get_stl_size_stl_VSU_vp(void* start_address);
void* get_stl_element_stl_VSU_vp(void* start_address, size_t index);
ATTRIBUTES attrVSU[] = {
{"len", "double", "m", "", "",
  "length",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"cm", "int", "cm", "", "",
  "length",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"deg", "float", "degree", "", "",
  "angle",
  15,TRICK_FLOAT, sizeof(float), 0, 0, Language_CPP, 0,
  12, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sec", "long", "s", "", "",
  "time",
  15,TRICK_LONG, sizeof(long), 0, 0, Language_CPP, 0,
  16, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"temp", "double", "K", "", "",
  "temperature",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dist", "unsigned short", "km", "", "",
  "length",
  15,TRICK_UNSIGNED_SHORT, sizeof(unsigned short), 0, 0, Language_CPP, 0,
  32, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mass", "long long", "kg", "", "",
  "mass",
  15,TRICK_LONG_LONG, sizeof(long long), 0, 0, Language_CPP, 0,
  40, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ratio", "double", "1", "", "",
  "none",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 4,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"one", "double", "1", "", "",
  "none",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  56, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"row", "double", "ft", "", "",
  "length",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  64, NULL, 1, {{3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pt", "VSPoint", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 4,
  88, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pp", "VSPoint", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 4,
  104, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vd", "std::vector<double>", "m", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<double>), 0, 0, Language_CPP, 0,
  112, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vs", "std::vector<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::basic_string<char> >), 0, 0, Language_CPP, 4,
  136, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vp", "std::vector<VSPoint>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<VSPoint>), 0, 0, Language_CPP, 4,
  160, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "VSPoint",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dp", "double", "m", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  184, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sp", "std::string", "1", "", "",
  "",
  15,TRICK_STRING, sizeof(std::string), 0, 0, Language_CPP, 4,
  192, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"m23", "double", "m", "", "",
  "",
  15,TRICK_DOUBLE, sizeof(double), 0, 0, Language_CPP, 0,
  200, NULL, 2, {{2, 0}, {3, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_VSU_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_VSU_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_VSU_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_VSU_vd(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_VSU_vd(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_VSU_vd(void* start_address, size_t index) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_VSU_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_VSU_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_VSU_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_VSU_vs(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_VSU_vs(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_VSU_vs(void* start_address, size_t index) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_VSU_vp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_VSU_vp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_VSU_vp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_VSU_vp(void* start_address) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_VSU_vp(void* start_address) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_VSU_vp(void* start_address, size_t index) {
    std::vector<VSPoint>* stl = reinterpret_cast<std::vector<VSPoint>*>(start_address);
    return (void*)&((*stl)[index]);
}

} //extern "C"


void init_attrVSU() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrVSU[10].type_name) , &attrVSU[10], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrVSU[11].type_name) , &attrVSU[11], __FILE__ , __LINE__ ) ;
    attrVSU[12].checkpoint_stl = checkpoint_stl_VSU_vd ;
    attrVSU[12].post_checkpoint_stl = post_checkpoint_stl_VSU_vd ;
    attrVSU[12].restore_stl = restore_stl_VSU_vd ;
    attrVSU[12].clear_stl = clear_stl_VSU_vd ;
    attrVSU[12].get_stl_size = get_stl_size_stl_VSU_vd ;
    attrVSU[12].get_stl_element = get_stl_element_stl_VSU_vd ;
    attrVSU[13].checkpoint_stl = checkpoint_stl_VSU_vs ;
    attrVSU[13].post_checkpoint_stl = post_checkpoint_stl_VSU_vs ;
    attrVSU[13].restore_stl = restore_stl_VSU_vs ;
    attrVSU[13].clear_stl = clear_stl_VSU_vs ;
    attrVSU[13].get_stl_size = get_stl_size_stl_VSU_vs ;
    attrVSU[13].get_stl_element = get_stl_element_stl_VSU_vs ;
    attrVSU[14].checkpoint_stl = checkpoint_stl_VSU_vp ;
    attrVSU[14].post_checkpoint_stl = post_checkpoint_stl_VSU_vp ;
    attrVSU[14].restore_stl = restore_stl_VSU_vp ;
    attrVSU[14].clear_stl = clear_stl_VSU_vp ;
    attrVSU[14].get_stl_size = get_stl_size_stl_VSU_vp ;
    attrVSU[14].get_stl_element = get_stl_element_stl_VSU_vp ;
}

extern "C" {

void init_attrVSU_c_intf() {
    init_attrVSU() ;
}

size_t io_src_sizeof_VSU() {
    return sizeof(VSU) ;
}

void* io_src_allocate_VSU(int num) {
    VSU* temp = (VSU*)calloc(num, sizeof(VSU));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) VSU();
    }
    return (void*)temp;
}

void io_src_destruct_VSU(void* address __attribute__((unused)), int num __attribute__((unused))) {
VSU* temp = (VSU*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~VSU();
    }
}

void io_src_delete_VSU(void* address) {
    delete (VSU*)address;
}

} //extern "C"

struct UnitsMapVSU {
    UnitsMapVSU() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("VSU_len", "m") ;
        units_map_ptr->add_param("VSU_cm", "cm") ;
        units_map_ptr->add_param("VSU_deg", "degree") ;
        units_map_ptr->add_param("VSU_sec", "s") ;
        units_map_ptr->add_param("VSU_temp", "K") ;
        units_map_ptr->add_param("VSU_dist", "km") ;
        units_map_ptr->add_param("VSU_mass", "kg") ;
        units_map_ptr->add_param("VSU_ratio", "1") ;
        units_map_ptr->add_param("VSU_one", "1") ;
        units_map_ptr->add_param("VSU_row", "ft") ;
        units_map_ptr->add_param("VSU_pt", "1") ;
        units_map_ptr->add_param("VSU_pp", "1") ;
        units_map_ptr->add_param("VSU_vd", "m") ;
        units_map_ptr->add_param("VSU_vs", "1") ;
        units_map_ptr->add_param("VSU_vp", "1") ;
        units_map_ptr->add_param("VSU_dp", "m") ;
        units_map_ptr->add_param("VSU_sp", "1") ;
        units_map_ptr->add_param("VSU_m23", "m") ;
    }
} umVSU;

