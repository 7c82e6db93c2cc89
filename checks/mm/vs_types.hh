/*
PURPOSE: (types with units for the variable server, data recording and input checks)
*/
#ifndef VS_TYPES_HH
#define VS_TYPES_HH
#include <vector>
#include <string>
struct VSPoint { double x; /* (m) */ float w; /* (degree) */ };
struct VSU {
    double len;      /* (m) length */
    int cm;          /* (cm) length */
    float deg;       /* (degree) angle */
    long sec;        /* (s) time */
    double temp;     /* (K) temperature */
    unsigned short dist;      /* (km) length */
    long long mass;  /* (kg) mass */
    double ratio;    /* (--) none */
    double one;      /* (1) none */
    double row[3];   /* (ft) length */
    VSPoint pt;      /* (--) */
    VSPoint *pp;     /* (--) */
    std::vector<double> vd; /* (m) */
    std::vector<std::string> vs; /* (--) */
    std::vector<VSPoint> vp; /* (--) */
    double *dp;      /* (m) */
    std::string *sp; /* (--) */
    double m23[2][3]; /* (m) */
};
#endif
