/*
PURPOSE: (container types for the container checkpoint check)
*/
#ifndef STL8_TYPES_HH
#define STL8_TYPES_HH
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <queue>
#include <stack>
#include <array>
#include <string>
#include <utility>
#include <functional>
#include "mm_types.hh"
struct U8 { int a[2]; long long b; std::string c; U8 *d; U8() : b(0), d(0) { a[0] = a[1] = 0; } };
namespace ns8 { struct V8 { int x; double y; V8() : x(0), y(0) {} }; enum Col8 { C8_A, C8_B = 7, C8_C = -2 }; }
struct S8 {
    std::vector<double> v_d; std::vector<float> v_f; std::vector<char> v_c; std::vector<unsigned char> v_uc; std::vector<short> v_s; std::vector<unsigned short> v_us; std::vector<int> v_i; std::vector<unsigned int> v_ui; std::vector<long> v_l; std::vector<unsigned long> v_ul; std::vector<long long> v_ll; std::vector<unsigned long long> v_ull;
    std::vector<bool> v_b; std::vector<std::string> v_str; std::vector<MMColor> v_e; std::vector<mmns::Kind> v_k; std::vector<ns8::Col8> v_ne; std::vector<wchar_t> v_w; std::vector<U8> v_u; std::vector<ns8::V8> v_v; std::vector<MMInner> v_in;
    std::vector<U8 *> v_up; std::vector<double *> v_dp; std::vector<MMInner *> v_ip; std::vector<std::string *> v_sp;
    std::list<int> l_i; std::list<std::string> l_str; std::list<double *> l_dp; std::deque<double> d_d; std::deque<std::string> d_str; std::set<int> s_i; std::set<std::string> s_str; std::multiset<int> ms_i; std::multiset<std::string> ms_str; std::set<int, std::greater<int> > s_ig;
    std::map<int, double> m_id; std::map<std::string, int> m_stri; std::map<std::string, std::string> m_strstr; std::map<int, U8> m_iu; std::map<int, double *> m_idp; std::map<MMColor, int> m_ei; std::multimap<int, int> mm_ii; std::multimap<std::string, std::string> mm_strstr; std::map<bool, char> m_bc;
    std::pair<int, double> p_id; std::pair<std::string, int> p_stri; std::pair<std::string, std::string> p_strstr; std::pair<double *, U8 *> p_pp;
    std::queue<int> q_i; std::queue<std::string> q_str; std::stack<int> k_i; std::stack<std::string> k_str; std::priority_queue<int> pq_i; std::priority_queue<std::string> pq_str; std::priority_queue<int, std::vector<int>, std::greater<int> > pq_ig; std::array<int, 3> a_i; std::array<std::string, 2> a_str;
    std::vector<std::vector<int> > v_v_i; std::vector<std::vector<std::vector<int> > > v_v_v_i; std::vector<std::list<int> > v_l_i; std::list<std::set<std::string> > l_s_str; std::set<std::vector<int> > s_v_i; std::multiset<std::pair<int, int> > ms_p_ii; std::vector<std::pair<int, std::string> > v_p_istr; std::set<std::map<short, double> > s_m_sd;
    std::map<int, std::vector<int> > m_i_v_i; std::map<std::pair<int, int>, int> m_p_ii_i; std::map<std::pair<int, int>, std::pair<int, int> > m_p_p; std::map<std::vector<int>, std::vector<int> > m_v_v; std::multimap<int, std::vector<int> > mm_i_v_i; std::multimap<std::vector<int>, int> mm_v_i_i; std::multimap<std::pair<int, int>, std::vector<int> > mm_p_v; std::map<std::string, std::map<int, std::string> > m_str_m;
    std::pair<int, std::vector<int> > p_i_v; std::pair<std::vector<int>, int> p_v_i; std::pair<std::vector<int>, std::vector<int> > p_v_v; std::pair<std::pair<int, int>, std::pair<int, int> > p_p_p; std::pair<int, std::map<int, int> > p_i_m; std::pair<std::vector<int>, std::map<int, int> > p_v_m;
    std::queue<std::vector<int> > q_v_i; std::stack<std::vector<int> > k_v_i; std::priority_queue<std::vector<int> > pq_v_i; std::array<std::vector<int>, 2> a_v_i; std::vector<std::array<int, 2> > v_a_i; std::vector<std::stack<int> > v_k_i; std::vector<std::queue<int> > v_q_i; std::vector<std::priority_queue<int> > v_pq_i; std::map<int, std::stack<int> > m_i_k; std::queue<std::stack<int> > q_k_i; std::stack<std::queue<int> > k_q_i; std::stack<std::stack<int> > k_k_i; std::deque<std::map<int, std::vector<std::string> > > d_m_v_str; std::list<std::pair<int, std::pair<int, std::vector<int> > > > l_p_p;
};
struct E8 { int k; std::vector<int> v; std::map<int, int> m; std::string s; std::pair<int, std::string> p; std::vector<std::vector<int> > vv; E8() : k(0) { p.first = 0; } };
struct D8 : public E8 { std::stack<int> st; D8() {} };
struct P8 { int n; E8 e; E8 arr[2]; E8 arr2[2][3]; E8 arr3[2][2][2]; E8 *ep; E8 *epa[2]; D8 d; E8 **epp; P8() : n(0), ep(0), epp(0) { epa[0] = epa[1] = 0; } };
struct T8 { int i; static std::vector<int> sv; T8() : i(0) {} };
struct R8 {
    std::vector<int> rw; /* *io (--) both */
    std::vector<int> ro; /* *o (--) output only */
    std::vector<int> none; /* ** (--) neither */
    std::vector<int> wo; /* *i (--) input only */
    std::map<int, int> m; /* *io (--) both */
};
struct C8 { std::vector<std::vector<int> > x; std::vector<int> x_0; std::map<int, int> m; std::vector<int> m_keys; std::vector<int> m_data; std::pair<int, int> p; std::vector<int> p_first; E8 b; std::vector<int> b_v; };
#endif
