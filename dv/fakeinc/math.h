#ifndef DV_MATH
#define DV_MATH
double sqrt(double x); double pow(double x, double y); double fabs(double x); double cos(double x); double sin(double x); double exp(double x); double floor(double x); double ceil(double x);
#define M_PI 3.14159265358979323846
#endif
