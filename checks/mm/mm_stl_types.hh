/*
PURPOSE: (STL types for the memory manager checks)
*/
#ifndef MM_STL_TYPES_HH
#define MM_STL_TYPES_HH
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <queue>
#include <stack>
#include <array>
#include <utility>
#include "mm_types.hh"
struct MMStl {
    std::vector<double> vd; std::vector<int> vi; std::vector<bool> vb; std::vector<std::string> vs; std::list<int> li; std::deque<double> dd; std::set<int> si; std::multiset<int> msi;
    std::map<int, double> mid; std::map<std::string, int> msi2; std::multimap<int, int> mmi; std::pair<int, double> pid; std::vector<std::vector<int> > vvi; std::map<int, std::vector<int> > miv;
    std::vector<MMInner> vin; std::vector<MMInner *> vpin; std::queue<int> qi; std::stack<int> sti; std::priority_queue<int> pqi; std::array<int, 3> ai; std::vector<std::pair<int, std::string> > vps;
    std::list<std::string> ls; std::set<std::string> ss; std::map<std::string, std::string> mss; std::vector<MMColor> vc; std::vector<double *> vdp; std::vector<char> vch; std::vector<float> vf; std::vector<mmns::Kind> vk;
};
struct MMStl2 { int n; MMStl s; MMStl *sp; };
#endif
