#pragma once
typedef unsigned long size_t;
#define NULL 0
namespace std {
double pow(double, double); double exp(double); double ceil(double); double floor(double); double sqrt(double); double fabs(double); double log(double);
void * memcpy(void *, const void *, size_t);
void * memset(void *, int, size_t);
template <class T> const T & max(const T & a, const T & b);
template <class T> const T & min(const T & a, const T & b);
template <class T> void swap(T & a, T & b);
double abs(double); int abs(int);
}
