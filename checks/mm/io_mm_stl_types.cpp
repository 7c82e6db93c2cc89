/**
 * This file was automatically generated by the ICG based on the file:
 * mm_stl_types.hh
 * This file contains database parameter declarations specific to the
 * data structures and enumerated types declared in the above file.
 * These database parameters are used by the Trick input and
 * data recording processors to gain access to important simulation
 * variable information.
 */

#define TRICK_IN_IOSRC
#include <stdlib.h>
#include "trick/MemoryManager.hh"
#include "trick/attributes.h"
#include "trick/parameter_types.h"
#include "trick/ClassSizeCheck.hh"
#include "trick/UnitsMap.hh"
#include "trick/checkpoint_stl.hh"
#include "mm_stl_types.hh"

extern "C" {

size_t get_stl_size_stl_MMStl_vd(void* start_address);
void* get_stl_element_stl_MMStl_vd(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vi(void* start_address);
void* get_stl_element_stl_MMStl_vi(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vb(void* start_address);
void* get_stl_element_stl_MMStl_vb(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vs(void* start_address);
void* get_stl_element_stl_MMStl_vs(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_dd(void* start_address);
void* get_stl_element_stl_MMStl_dd(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vvi(void* start_address);
void* get_stl_element_stl_MMStl_vvi(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vin(void* start_address);
void* get_stl_element_stl_MMStl_vin(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vpin(void* start_address);
void* get_stl_element_stl_MMStl_vpin(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_ai(void* start_address);
void* get_stl_element_stl_MMStl_ai(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vps(void* start_address);
void* get_stl_element_stl_MMStl_vps(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vc(void* start_address);
void* get_stl_element_stl_MMStl_vc(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vdp(void* start_address);
void* get_stl_element_stl_MMStl_vdp(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vch(void* start_address);
void* get_stl_element_stl_MMStl_vch(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vf(void* start_address);
void* get_stl_element_stl_MMStl_vf(void* start_address, size_t index);
size_t get_stl_size_stl_MMStl_vk(void* start_address);
void* get_stl_element_stl_MMStl_vk(void* start_address, size_t index);
ATTRIBUTES attrMMStl[] = {
{"vd", "std::vector<double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<double>), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vi", "std::vector<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<int>), 0, 0, Language_CPP, 0,
  24, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vb", "std::vector<bool>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<bool>), 0, 0, Language_CPP, 0,
  48, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_BOOLEAN, "bool",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vs", "std::vector<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  88, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"li", "std::list<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<int>), 0, 0, Language_CPP, 0,
  112, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"dd", "std::deque<double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::deque<double>), 0, 0, Language_CPP, 0,
  136, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_DEQUE, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"si", "std::set<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<int>), 0, 0, Language_CPP, 0,
  216, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"msi", "std::multiset<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multiset<int>), 0, 0, Language_CPP, 0,
  264, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mid", "std::map<int, double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, double>), 0, 0, Language_CPP, 0,
  312, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_DOUBLE, "double",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"msi2", "std::map<std::string, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::basic_string<char>, int>), 0, 0, Language_CPP, 0,
  360, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mmi", "std::multimap<int, int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::multimap<int, int>), 0, 0, Language_CPP, 0,
  408, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pid", "std::pair<int, double>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::pair<int, double>), 0, 0, Language_CPP, 0,
  456, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PAIR, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vvi", "std::vector<std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::vector<int> >), 0, 0, Language_CPP, 0,
  472, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"miv", "std::map<int, std::vector<int> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<int, std::vector<int> >), 0, 0, Language_CPP, 0,
  496, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STL, "std::vector<int>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vin", "std::vector<MMInner>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<MMInner>), 0, 0, Language_CPP, 0,
  544, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "MMInner",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vpin", "std::vector<MMInner *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<MMInner *>), 0, 0, Language_CPP, 0,
  568, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STRUCTURED, "MMInner *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"qi", "std::queue<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::queue<int>), 0, 0, Language_CPP, 0,
  592, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_QUEUE, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sti", "std::stack<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::stack<int>), 0, 0, Language_CPP, 0,
  672, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_STACK, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"pqi", "std::priority_queue<int>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::priority_queue<int>), 0, 0, Language_CPP, 0,
  752, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_PRIORITY_QUEUE, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ai", "std::array<int, 3>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::array<int, 3>), 0, 0, Language_CPP, 0,
  784, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_ARRAY, TRICK_INTEGER, "int",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vps", "std::vector<std::pair<int, std::string> >", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<std::pair<int, std::basic_string<char> > >), 0, 0, Language_CPP, 0,
  800, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_STL, "std::pair<int, std::basic_string<char> >",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ls", "std::list<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::list<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  824, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_LIST, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"ss", "std::set<std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::set<std::basic_string<char> >), 0, 0, Language_CPP, 0,
  848, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_SET, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"mss", "std::map<std::string, std::string>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::map<std::basic_string<char>, std::basic_string<char> >), 0, 0, Language_CPP, 0,
  896, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_MAP, TRICK_STRING, "std::basic_string<char>",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vc", "std::vector<MMColor>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<enum MMColor>), 0, 0, Language_CPP, 0,
  944, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_ENUMERATED, "MMColor",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vdp", "std::vector<double *>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<double *>), 0, 0, Language_CPP, 0,
  968, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_NUMBER_OF_TYPES, "double *",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vch", "std::vector<char>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<char>), 0, 0, Language_CPP, 0,
  992, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_CHARACTER, "char",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vf", "std::vector<float>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<float>), 0, 0, Language_CPP, 0,
  1016, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_FLOAT, "float",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"vk", "std::vector<mmns::Kind>", "1", "", "",
  "",
  15,TRICK_STL, sizeof(std::vector<enum mmns::Kind>), 0, 0, Language_CPP, 0,
  1040, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_VECTOR, TRICK_ENUMERATED, "mmns::Kind",  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"

extern "C" {

void checkpoint_stl_MMStl_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vd(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vd(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vd(void* start_address) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vd(void* start_address, size_t index) {
    std::vector<double>* stl = reinterpret_cast<std::vector<double>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vi(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vi(void* start_address) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vi(void* start_address, size_t index) {
    std::vector<int>* stl = reinterpret_cast<std::vector<int>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vb(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vb(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vb(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vb(void* start_address) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vb(void* start_address) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vb(void* start_address, size_t index) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    static thread_local std::vector<char> temp; if (temp.size() < stl->size()) { temp.resize(stl->size()); } temp[index] = (*stl)[index]; return (void*)&temp[index];
}
void set_stl_element_stl_MMStl_vb(void* start_address, size_t index, void* value_ptr) {
    std::vector<bool>* stl = reinterpret_cast<std::vector<bool>*>(start_address);
    (*stl)[index] = *(bool*)value_ptr;
}
void checkpoint_stl_MMStl_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vs(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vs(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vs(void* start_address) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vs(void* start_address, size_t index) {
    std::vector<std::basic_string<char> >* stl = reinterpret_cast<std::vector<std::basic_string<char> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_li(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_li(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_li(void* start_address, const char* obj_name , const char* var_name) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_li(void* start_address) {
    std::list<int>* stl = reinterpret_cast<std::list<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_dd(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_dd(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_dd(void* start_address, const char* obj_name , const char* var_name) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_dd(void* start_address) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_dd(void* start_address) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_dd(void* start_address, size_t index) {
    std::deque<double>* stl = reinterpret_cast<std::deque<double>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_si(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_si(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_si(void* start_address, const char* obj_name , const char* var_name) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_si(void* start_address) {
    std::set<int>* stl = reinterpret_cast<std::set<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_msi(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_msi(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_msi(void* start_address, const char* obj_name , const char* var_name) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_msi(void* start_address) {
    std::multiset<int>* stl = reinterpret_cast<std::multiset<int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_mid(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_mid(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_mid(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_mid(void* start_address) {
    std::map<int, double>* stl = reinterpret_cast<std::map<int, double>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_msi2(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_msi2(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_msi2(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_msi2(void* start_address) {
    std::map<std::basic_string<char>, int>* stl = reinterpret_cast<std::map<std::basic_string<char>, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_mmi(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_mmi(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_mmi(void* start_address, const char* obj_name , const char* var_name) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_mmi(void* start_address) {
    std::multimap<int, int>* stl = reinterpret_cast<std::multimap<int, int>*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_pid(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_pid(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_pid(void* start_address, const char* obj_name , const char* var_name) {
    std::pair<int, double>* stl = reinterpret_cast<std::pair<int, double>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_MMStl_vvi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vvi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vvi(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vvi(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vvi(void* start_address) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vvi(void* start_address, size_t index) {
    std::vector<std::vector<int> >* stl = reinterpret_cast<std::vector<std::vector<int> >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_miv(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_miv(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_miv(void* start_address, const char* obj_name , const char* var_name) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_miv(void* start_address) {
    std::map<int, std::vector<int> >* stl = reinterpret_cast<std::map<int, std::vector<int> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_vin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vin(void* start_address) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vin(void* start_address) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vin(void* start_address, size_t index) {
    std::vector<MMInner>* stl = reinterpret_cast<std::vector<MMInner>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vpin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vpin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vpin(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vpin(void* start_address) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vpin(void* start_address) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vpin(void* start_address, size_t index) {
    std::vector<MMInner *>* stl = reinterpret_cast<std::vector<MMInner *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_qi(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_qi(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_qi(void* start_address, const char* obj_name , const char* var_name) {
    std::queue<int>* stl = reinterpret_cast<std::queue<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_MMStl_sti(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_sti(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_sti(void* start_address, const char* obj_name , const char* var_name) {
    std::stack<int>* stl = reinterpret_cast<std::stack<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_MMStl_pqi(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_pqi(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_pqi(void* start_address, const char* obj_name , const char* var_name) {
    std::priority_queue<int>* stl = reinterpret_cast<std::priority_queue<int>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void checkpoint_stl_MMStl_ai(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_ai(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_ai(void* start_address, const char* obj_name , const char* var_name) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
size_t get_stl_size_stl_MMStl_ai(void* start_address) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_ai(void* start_address, size_t index) {
    std::array<int, 3>* stl = reinterpret_cast<std::array<int, 3>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vps(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vps(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vps(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vps(void* start_address) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vps(void* start_address) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vps(void* start_address, size_t index) {
    std::vector<std::pair<int, std::basic_string<char> > >* stl = reinterpret_cast<std::vector<std::pair<int, std::basic_string<char> > >*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_ls(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_ls(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_ls(void* start_address, const char* obj_name , const char* var_name) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_ls(void* start_address) {
    std::list<std::basic_string<char> >* stl = reinterpret_cast<std::list<std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_ss(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_ss(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_ss(void* start_address, const char* obj_name , const char* var_name) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_ss(void* start_address) {
    std::set<std::basic_string<char> >* stl = reinterpret_cast<std::set<std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_mss(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_mss(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_mss(void* start_address, const char* obj_name , const char* var_name) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_mss(void* start_address) {
    std::map<std::basic_string<char>, std::basic_string<char> >* stl = reinterpret_cast<std::map<std::basic_string<char>, std::basic_string<char> >*>(start_address);
    stl->clear();
}
void checkpoint_stl_MMStl_vc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vc(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vc(void* start_address) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vc(void* start_address) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vc(void* start_address, size_t index) {
    std::vector<enum MMColor>* stl = reinterpret_cast<std::vector<enum MMColor>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vdp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vdp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vdp(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vdp(void* start_address) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vdp(void* start_address) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vdp(void* start_address, size_t index) {
    std::vector<double *>* stl = reinterpret_cast<std::vector<double *>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vch(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vch(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vch(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vch(void* start_address) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vch(void* start_address) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vch(void* start_address, size_t index) {
    std::vector<char>* stl = reinterpret_cast<std::vector<char>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vf(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vf(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vf(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vf(void* start_address) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vf(void* start_address) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vf(void* start_address, size_t index) {
    std::vector<float>* stl = reinterpret_cast<std::vector<float>*>(start_address);
    return (void*)&((*stl)[index]);
}
void checkpoint_stl_MMStl_vk(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    checkpoint_stl(*stl, obj_name, var_name);
}
void post_checkpoint_stl_MMStl_vk(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    delete_stl(*stl, obj_name, var_name);
}
void restore_stl_MMStl_vk(void* start_address, const char* obj_name , const char* var_name) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    restore_stl(*stl, obj_name, var_name);
}
void clear_stl_MMStl_vk(void* start_address) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    stl->clear();
}
size_t get_stl_size_stl_MMStl_vk(void* start_address) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    return stl->size();
}
void* get_stl_element_stl_MMStl_vk(void* start_address, size_t index) {
    std::vector<enum mmns::Kind>* stl = reinterpret_cast<std::vector<enum mmns::Kind>*>(start_address);
    return (void*)&((*stl)[index]);
}

} //extern "C"


void init_attrMMStl() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    attrMMStl[0].checkpoint_stl = checkpoint_stl_MMStl_vd ;
    attrMMStl[0].post_checkpoint_stl = post_checkpoint_stl_MMStl_vd ;
    attrMMStl[0].restore_stl = restore_stl_MMStl_vd ;
    attrMMStl[0].clear_stl = clear_stl_MMStl_vd ;
    attrMMStl[0].get_stl_size = get_stl_size_stl_MMStl_vd ;
    attrMMStl[0].get_stl_element = get_stl_element_stl_MMStl_vd ;
    attrMMStl[1].checkpoint_stl = checkpoint_stl_MMStl_vi ;
    attrMMStl[1].post_checkpoint_stl = post_checkpoint_stl_MMStl_vi ;
    attrMMStl[1].restore_stl = restore_stl_MMStl_vi ;
    attrMMStl[1].clear_stl = clear_stl_MMStl_vi ;
    attrMMStl[1].get_stl_size = get_stl_size_stl_MMStl_vi ;
    attrMMStl[1].get_stl_element = get_stl_element_stl_MMStl_vi ;
    attrMMStl[2].checkpoint_stl = checkpoint_stl_MMStl_vb ;
    attrMMStl[2].post_checkpoint_stl = post_checkpoint_stl_MMStl_vb ;
    attrMMStl[2].restore_stl = restore_stl_MMStl_vb ;
    attrMMStl[2].clear_stl = clear_stl_MMStl_vb ;
    attrMMStl[2].get_stl_size = get_stl_size_stl_MMStl_vb ;
    attrMMStl[2].get_stl_element = get_stl_element_stl_MMStl_vb ;
    attrMMStl[2].set_stl_element = set_stl_element_stl_MMStl_vb ;
    attrMMStl[3].checkpoint_stl = checkpoint_stl_MMStl_vs ;
    attrMMStl[3].post_checkpoint_stl = post_checkpoint_stl_MMStl_vs ;
    attrMMStl[3].restore_stl = restore_stl_MMStl_vs ;
    attrMMStl[3].clear_stl = clear_stl_MMStl_vs ;
    attrMMStl[3].get_stl_size = get_stl_size_stl_MMStl_vs ;
    attrMMStl[3].get_stl_element = get_stl_element_stl_MMStl_vs ;
    attrMMStl[4].checkpoint_stl = checkpoint_stl_MMStl_li ;
    attrMMStl[4].post_checkpoint_stl = post_checkpoint_stl_MMStl_li ;
    attrMMStl[4].restore_stl = restore_stl_MMStl_li ;
    attrMMStl[4].clear_stl = clear_stl_MMStl_li ;
    attrMMStl[5].checkpoint_stl = checkpoint_stl_MMStl_dd ;
    attrMMStl[5].post_checkpoint_stl = post_checkpoint_stl_MMStl_dd ;
    attrMMStl[5].restore_stl = restore_stl_MMStl_dd ;
    attrMMStl[5].clear_stl = clear_stl_MMStl_dd ;
    attrMMStl[5].get_stl_size = get_stl_size_stl_MMStl_dd ;
    attrMMStl[5].get_stl_element = get_stl_element_stl_MMStl_dd ;
    attrMMStl[6].checkpoint_stl = checkpoint_stl_MMStl_si ;
    attrMMStl[6].post_checkpoint_stl = post_checkpoint_stl_MMStl_si ;
    attrMMStl[6].restore_stl = restore_stl_MMStl_si ;
    attrMMStl[6].clear_stl = clear_stl_MMStl_si ;
    attrMMStl[7].checkpoint_stl = checkpoint_stl_MMStl_msi ;
    attrMMStl[7].post_checkpoint_stl = post_checkpoint_stl_MMStl_msi ;
    attrMMStl[7].restore_stl = restore_stl_MMStl_msi ;
    attrMMStl[7].clear_stl = clear_stl_MMStl_msi ;
    attrMMStl[8].checkpoint_stl = checkpoint_stl_MMStl_mid ;
    attrMMStl[8].post_checkpoint_stl = post_checkpoint_stl_MMStl_mid ;
    attrMMStl[8].restore_stl = restore_stl_MMStl_mid ;
    attrMMStl[8].clear_stl = clear_stl_MMStl_mid ;
    attrMMStl[9].checkpoint_stl = checkpoint_stl_MMStl_msi2 ;
    attrMMStl[9].post_checkpoint_stl = post_checkpoint_stl_MMStl_msi2 ;
    attrMMStl[9].restore_stl = restore_stl_MMStl_msi2 ;
    attrMMStl[9].clear_stl = clear_stl_MMStl_msi2 ;
    attrMMStl[10].checkpoint_stl = checkpoint_stl_MMStl_mmi ;
    attrMMStl[10].post_checkpoint_stl = post_checkpoint_stl_MMStl_mmi ;
    attrMMStl[10].restore_stl = restore_stl_MMStl_mmi ;
    attrMMStl[10].clear_stl = clear_stl_MMStl_mmi ;
    attrMMStl[11].checkpoint_stl = checkpoint_stl_MMStl_pid ;
    attrMMStl[11].post_checkpoint_stl = post_checkpoint_stl_MMStl_pid ;
    attrMMStl[11].restore_stl = restore_stl_MMStl_pid ;
    attrMMStl[12].checkpoint_stl = checkpoint_stl_MMStl_vvi ;
    attrMMStl[12].post_checkpoint_stl = post_checkpoint_stl_MMStl_vvi ;
    attrMMStl[12].restore_stl = restore_stl_MMStl_vvi ;
    attrMMStl[12].clear_stl = clear_stl_MMStl_vvi ;
    attrMMStl[12].get_stl_size = get_stl_size_stl_MMStl_vvi ;
    attrMMStl[12].get_stl_element = get_stl_element_stl_MMStl_vvi ;
    attrMMStl[13].checkpoint_stl = checkpoint_stl_MMStl_miv ;
    attrMMStl[13].post_checkpoint_stl = post_checkpoint_stl_MMStl_miv ;
    attrMMStl[13].restore_stl = restore_stl_MMStl_miv ;
    attrMMStl[13].clear_stl = clear_stl_MMStl_miv ;
    attrMMStl[14].checkpoint_stl = checkpoint_stl_MMStl_vin ;
    attrMMStl[14].post_checkpoint_stl = post_checkpoint_stl_MMStl_vin ;
    attrMMStl[14].restore_stl = restore_stl_MMStl_vin ;
    attrMMStl[14].clear_stl = clear_stl_MMStl_vin ;
    attrMMStl[14].get_stl_size = get_stl_size_stl_MMStl_vin ;
    attrMMStl[14].get_stl_element = get_stl_element_stl_MMStl_vin ;
    attrMMStl[15].checkpoint_stl = checkpoint_stl_MMStl_vpin ;
    attrMMStl[15].post_checkpoint_stl = post_checkpoint_stl_MMStl_vpin ;
    attrMMStl[15].restore_stl = restore_stl_MMStl_vpin ;
    attrMMStl[15].clear_stl = clear_stl_MMStl_vpin ;
    attrMMStl[15].get_stl_size = get_stl_size_stl_MMStl_vpin ;
    attrMMStl[15].get_stl_element = get_stl_element_stl_MMStl_vpin ;
    attrMMStl[16].checkpoint_stl = checkpoint_stl_MMStl_qi ;
    attrMMStl[16].post_checkpoint_stl = post_checkpoint_stl_MMStl_qi ;
    attrMMStl[16].restore_stl = restore_stl_MMStl_qi ;
    attrMMStl[17].checkpoint_stl = checkpoint_stl_MMStl_sti ;
    attrMMStl[17].post_checkpoint_stl = post_checkpoint_stl_MMStl_sti ;
    attrMMStl[17].restore_stl = restore_stl_MMStl_sti ;
    attrMMStl[18].checkpoint_stl = checkpoint_stl_MMStl_pqi ;
    attrMMStl[18].post_checkpoint_stl = post_checkpoint_stl_MMStl_pqi ;
    attrMMStl[18].restore_stl = restore_stl_MMStl_pqi ;
    attrMMStl[19].checkpoint_stl = checkpoint_stl_MMStl_ai ;
    attrMMStl[19].post_checkpoint_stl = post_checkpoint_stl_MMStl_ai ;
    attrMMStl[19].restore_stl = restore_stl_MMStl_ai ;
    attrMMStl[19].get_stl_size = get_stl_size_stl_MMStl_ai ;
    attrMMStl[19].get_stl_element = get_stl_element_stl_MMStl_ai ;
    attrMMStl[20].checkpoint_stl = checkpoint_stl_MMStl_vps ;
    attrMMStl[20].post_checkpoint_stl = post_checkpoint_stl_MMStl_vps ;
    attrMMStl[20].restore_stl = restore_stl_MMStl_vps ;
    attrMMStl[20].clear_stl = clear_stl_MMStl_vps ;
    attrMMStl[20].get_stl_size = get_stl_size_stl_MMStl_vps ;
    attrMMStl[20].get_stl_element = get_stl_element_stl_MMStl_vps ;
    attrMMStl[21].checkpoint_stl = checkpoint_stl_MMStl_ls ;
    attrMMStl[21].post_checkpoint_stl = post_checkpoint_stl_MMStl_ls ;
    attrMMStl[21].restore_stl = restore_stl_MMStl_ls ;
    attrMMStl[21].clear_stl = clear_stl_MMStl_ls ;
    attrMMStl[22].checkpoint_stl = checkpoint_stl_MMStl_ss ;
    attrMMStl[22].post_checkpoint_stl = post_checkpoint_stl_MMStl_ss ;
    attrMMStl[22].restore_stl = restore_stl_MMStl_ss ;
    attrMMStl[22].clear_stl = clear_stl_MMStl_ss ;
    attrMMStl[23].checkpoint_stl = checkpoint_stl_MMStl_mss ;
    attrMMStl[23].post_checkpoint_stl = post_checkpoint_stl_MMStl_mss ;
    attrMMStl[23].restore_stl = restore_stl_MMStl_mss ;
    attrMMStl[23].clear_stl = clear_stl_MMStl_mss ;
    attrMMStl[24].checkpoint_stl = checkpoint_stl_MMStl_vc ;
    attrMMStl[24].post_checkpoint_stl = post_checkpoint_stl_MMStl_vc ;
    attrMMStl[24].restore_stl = restore_stl_MMStl_vc ;
    attrMMStl[24].clear_stl = clear_stl_MMStl_vc ;
    attrMMStl[24].get_stl_size = get_stl_size_stl_MMStl_vc ;
    attrMMStl[24].get_stl_element = get_stl_element_stl_MMStl_vc ;
    attrMMStl[25].checkpoint_stl = checkpoint_stl_MMStl_vdp ;
    attrMMStl[25].post_checkpoint_stl = post_checkpoint_stl_MMStl_vdp ;
    attrMMStl[25].restore_stl = restore_stl_MMStl_vdp ;
    attrMMStl[25].clear_stl = clear_stl_MMStl_vdp ;
    attrMMStl[25].get_stl_size = get_stl_size_stl_MMStl_vdp ;
    attrMMStl[25].get_stl_element = get_stl_element_stl_MMStl_vdp ;
    attrMMStl[26].checkpoint_stl = checkpoint_stl_MMStl_vch ;
    attrMMStl[26].post_checkpoint_stl = post_checkpoint_stl_MMStl_vch ;
    attrMMStl[26].restore_stl = restore_stl_MMStl_vch ;
    attrMMStl[26].clear_stl = clear_stl_MMStl_vch ;
    attrMMStl[26].get_stl_size = get_stl_size_stl_MMStl_vch ;
    attrMMStl[26].get_stl_element = get_stl_element_stl_MMStl_vch ;
    attrMMStl[27].checkpoint_stl = checkpoint_stl_MMStl_vf ;
    attrMMStl[27].post_checkpoint_stl = post_checkpoint_stl_MMStl_vf ;
    attrMMStl[27].restore_stl = restore_stl_MMStl_vf ;
    attrMMStl[27].clear_stl = clear_stl_MMStl_vf ;
    attrMMStl[27].get_stl_size = get_stl_size_stl_MMStl_vf ;
    attrMMStl[27].get_stl_element = get_stl_element_stl_MMStl_vf ;
    attrMMStl[28].checkpoint_stl = checkpoint_stl_MMStl_vk ;
    attrMMStl[28].post_checkpoint_stl = post_checkpoint_stl_MMStl_vk ;
    attrMMStl[28].restore_stl = restore_stl_MMStl_vk ;
    attrMMStl[28].clear_stl = clear_stl_MMStl_vk ;
    attrMMStl[28].get_stl_size = get_stl_size_stl_MMStl_vk ;
    attrMMStl[28].get_stl_element = get_stl_element_stl_MMStl_vk ;
}

extern "C" {

void init_attrMMStl_c_intf() {
    init_attrMMStl() ;
}

size_t io_src_sizeof_MMStl() {
    return sizeof(MMStl) ;
}

void* io_src_allocate_MMStl(int num) {
    MMStl* temp = (MMStl*)calloc(num, sizeof(MMStl));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMStl();
    }
    return (void*)temp;
}

void io_src_destruct_MMStl(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMStl* temp = (MMStl*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMStl();
    }
}

void io_src_delete_MMStl(void* address) {
    delete (MMStl*)address;
}

} //extern "C"

struct UnitsMapMMStl {
    UnitsMapMMStl() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMStl_vd", "1") ;
        units_map_ptr->add_param("MMStl_vi", "1") ;
        units_map_ptr->add_param("MMStl_vb", "1") ;
        units_map_ptr->add_param("MMStl_vs", "1") ;
        units_map_ptr->add_param("MMStl_li", "1") ;
        units_map_ptr->add_param("MMStl_dd", "1") ;
        units_map_ptr->add_param("MMStl_si", "1") ;
        units_map_ptr->add_param("MMStl_msi", "1") ;
        units_map_ptr->add_param("MMStl_mid", "1") ;
        units_map_ptr->add_param("MMStl_msi2", "1") ;
        units_map_ptr->add_param("MMStl_mmi", "1") ;
        units_map_ptr->add_param("MMStl_pid", "1") ;
        units_map_ptr->add_param("MMStl_vvi", "1") ;
        units_map_ptr->add_param("MMStl_miv", "1") ;
        units_map_ptr->add_param("MMStl_vin", "1") ;
        units_map_ptr->add_param("MMStl_vpin", "1") ;
        units_map_ptr->add_param("MMStl_qi", "1") ;
        units_map_ptr->add_param("MMStl_sti", "1") ;
        units_map_ptr->add_param("MMStl_pqi", "1") ;
        units_map_ptr->add_param("MMStl_ai", "1") ;
        units_map_ptr->add_param("MMStl_vps", "1") ;
        units_map_ptr->add_param("MMStl_ls", "1") ;
        units_map_ptr->add_param("MMStl_ss", "1") ;
        units_map_ptr->add_param("MMStl_mss", "1") ;
        units_map_ptr->add_param("MMStl_vc", "1") ;
        units_map_ptr->add_param("MMStl_vdp", "1") ;
        units_map_ptr->add_param("MMStl_vch", "1") ;
        units_map_ptr->add_param("MMStl_vf", "1") ;
        units_map_ptr->add_param("MMStl_vk", "1") ;
    }
} umMMStl;

extern "C" {

ATTRIBUTES attrMMStl2[] = {
{"n", "int", "1", "", "",
  "",
  15,TRICK_INTEGER, sizeof(int), 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"s", "MMStl", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  8, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"sp", "MMStl", "1", "", "",
  "",
  15,TRICK_STRUCTURED, 0, 0, 0, Language_CPP, 0,
  1072, NULL, 1, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL},
{"", "", "1", "", "",
  "",
  15,TRICK_VOID, 0, 0, 0, Language_CPP, 0,
  0, NULL, 0, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}},
  TRICK_STL_UNKNOWN, TRICK_NUMBER_OF_TYPES, NULL,  NULL, NULL, NULL, NULL, NULL, NULL, NULL} };

} //extern "C"


void init_attrMMStl2() {

    static int initialized ;
    if (initialized) {
        return;
    }
    initialized = 1;

    trick_MM->add_attr_info(std::string(attrMMStl2[1].type_name) , &attrMMStl2[1], __FILE__ , __LINE__ ) ;
    trick_MM->add_attr_info(std::string(attrMMStl2[2].type_name) , &attrMMStl2[2], __FILE__ , __LINE__ ) ;
}

extern "C" {

void init_attrMMStl2_c_intf() {
    init_attrMMStl2() ;
}

size_t io_src_sizeof_MMStl2() {
    return sizeof(MMStl2) ;
}

void* io_src_allocate_MMStl2(int num) {
    MMStl2* temp = (MMStl2*)calloc(num, sizeof(MMStl2));
    for (int ii = 0; ii < num; ++ii) {
        new(&temp[ii]) MMStl2();
    }
    return (void*)temp;
}

void io_src_destruct_MMStl2(void* address __attribute__((unused)), int num __attribute__((unused))) {
MMStl2* temp = (MMStl2*)address;
    for (int ii = 0; ii < num; ++ii) {
        temp[ii].~MMStl2();
    }
}

void io_src_delete_MMStl2(void* address) {
    delete (MMStl2*)address;
}

} //extern "C"

struct UnitsMapMMStl2 {
    UnitsMapMMStl2() {
        Trick::UnitsMap* units_map_ptr = Trick::UnitsMap::units_map();
        units_map_ptr->add_param("MMStl2_n", "1") ;
        units_map_ptr->add_param("MMStl2_s", "1") ;
        units_map_ptr->add_param("MMStl2_sp", "1") ;
    }
} umMMStl2;

