/* PURPOSE: (simulation of C10) */
#ifndef C10_TYPES_HH
#define C10_TYPES_HH
#include <vector>
#include <string>
#include "trick/SimObject.hh"
#include "trick/Executive.hh"
#include "trick/CheckPointRestart.hh"
class SysSO : public Trick::SimObject { public:
    Trick::Executive sched;
    SysSO();
    virtual int call_function(Trick::JobData *); virtual double call_function_double(Trick::JobData *) { return 0; }
};
class CprSO : public Trick::SimObject { public:
    Trick::CheckPointRestart cpr;
    CprSO();
    virtual int call_function(Trick::JobData *); virtual double call_function_double(Trick::JobData *) { return 0; }
};
class UserSO : public Trick::SimObject { public:
    double x;        /* -- state */
    long n;          /* -- calls */
    int base;        /* ** number of the object */
    double *dyn;     /* -- */
    std::vector<double> hist;  /* -- */
    UserSO() : x(0), n(0), base(0), dyn(0) {}
    virtual int call_function(Trick::JobData *); virtual double call_function_double(Trick::JobData *) { return 0; }
};
#endif
