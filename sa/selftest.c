/* Positive and negative controls for the rules: every bad_* function violates one rule. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef long npy_intp;
#define LOOP(n) void n(char **args, const npy_intp *dimensions, const npy_intp *steps, void *data)

/* (n)->() sum; correct */
LOOP(good_sum)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P01: the output's stride is used for the input */
LOOP(bad_p01_stride)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[1] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P01: unit stride assumed */
LOOP(bad_p01_unit)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        double *p = (double *)(args[0] + j*steps[0]);
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += p[k];
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P02: one element too many */
LOOP(bad_p02)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k <= dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P03: clears the input */
LOOP(bad_p03)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k) {
            double *p = (double *)(args[0] + j*steps[0] + k*steps[2]);
            s += *p;
            if (s != s) *p = 0;
        }
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P04: nothing is assigned for an empty core dimension */
LOOP(bad_p04)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k) {
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
            *(double *)(args[1] + j*steps[1]) = s;
        }
    }
}
/* P05: hidden state, and a variable that is only sometimes assigned */
static double last;
LOOP(bad_p05_state)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = last;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
        last = s;
    }
}
LOOP(bad_p05_undef)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            if (k == 0) s = *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
LOOP(bad_p05_heap)
{
    double *w = malloc(sizeof(double)*dimensions[1]);
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        for (npy_intp k = 1; k < dimensions[1]; ++k)
            w[k] = *(double *)(args[0] + j*steps[0] + k*steps[2]);
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += w[k];
        *(double *)(args[1] + j*steps[1]) = s;
    }
    free(w);
}
/* P06: the accumulator is not reset */
LOOP(bad_p06)
{
    double s = 0;
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P07: reads the input after the output has been written (element-wise, two outputs) */
LOOP(good_p07)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double x = *(double *)(args[0] + j*steps[0]);
        *(double *)(args[1] + j*steps[1]) = -x;
        *(double *)(args[2] + j*steps[2]) = x*x;
    }
}
LOOP(bad_p07)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        *(double *)(args[1] + j*steps[1]) = -*(double *)(args[0] + j*steps[0]);
        *(double *)(args[2] + j*steps[2]) = 2 * *(double *)(args[0] + j*steps[0]);
    }
}
/* P12: 32-bit counter */
LOOP(bad_p12)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        int n = (int) dimensions[1];
        for (int k = 0; k < n; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P13 */
LOOP(bad_p13_div)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        int64_t s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += 100 / *(int64_t *)(args[0] + j*steps[0] + k*steps[2]);
        *(int64_t *)(args[1] + j*steps[1]) = s;
    }
}
LOOP(bad_p13_conv)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += (double)(int) *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P14 */
LOOP(bad_p14)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        float s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P15: never advances past a nan */
LOOP(bad_p15)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        npy_intp k = 0;
        while (k < dimensions[1]) {
            double x = *(double *)(args[0] + j*steps[0] + k*steps[2]);
            s += x;
            if (x == x) ++k;
        }
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P11 */
LOOP(good_p11)
{
    double *w = calloc(dimensions[1], sizeof(double));
    if (w == NULL) abort();
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += w[k];
        *(double *)(args[1] + j*steps[1]) = s;
    }
    free(w);
}
LOOP(bad_p11_unchecked)
{
    double *w = calloc(dimensions[1], sizeof(double));
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1]; ++k)
            s += w[k];
        *(double *)(args[1] + j*steps[1]) = s;
    }
    free(w);
}
/* P08: the minimum of signed 32-bit integers */
LOOP(p08_min)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        int32_t s = *(int32_t *)(args[0] + j*steps[0]);
        for (npy_intp k = 1; k < dimensions[1]; ++k) {
            int32_t x = *(int32_t *)(args[0] + j*steps[0] + k*steps[2]);
            if (x < s)
                s = x;
        }
        *(int32_t *)(args[1] + j*steps[1]) = s;
    }
}
/* P16: the position of the last negative element, 0 if there is none; the bad one starts at 1 */
LOOP(good_p16)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        int64_t s = 0;
        if (dimensions[1] < 1)
            continue;
        for (npy_intp k = 1; k < dimensions[1]; ++k)
            if (*(double *)(args[0] + j*steps[0] + k*steps[2]) < 0)
                s = k;
        *(int64_t *)(args[1] + j*steps[1]) = s;
    }
}
LOOP(bad_p16)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        int64_t s = 0;
        if (dimensions[1] < 1)
            continue;
        for (npy_intp k = 1; k < dimensions[1]; ++k)
            if (*(double *)(args[0] + j*steps[0] + k*steps[2]) < 0)
                s = k + 1;
        *(int64_t *)(args[1] + j*steps[1]) = s;
    }
}
/* P18: position of the first maximum; the bad one takes the last */
#define ARGMAX(NAME, OP) \
LOOP(NAME) \
{ \
    for (npy_intp j = 0; j < dimensions[0]; ++j) { \
        int64_t s = 0; \
        if (dimensions[1] < 1) \
            continue; \
        double m = *(double *)(args[0] + j*steps[0]); \
        for (npy_intp k = 1; k < dimensions[1]; ++k) { \
            double x = *(double *)(args[0] + j*steps[0] + k*steps[2]); \
            if (x OP m) { \
                m = x; \
                s = k; \
            } \
        } \
        *(int64_t *)(args[1] + j*steps[1]) = s; \
    } \
}
ARGMAX(good_p18, >)
ARGMAX(bad_p18, >=)
/* P19: the last element of each row is not used */
LOOP(bad_p19)
{
    for (npy_intp j = 0; j < dimensions[0]; ++j) {
        double s = 0;
        for (npy_intp k = 0; k < dimensions[1] - 1; ++k)
            s += *(double *)(args[0] + j*steps[0] + k*steps[2]);
        *(double *)(args[1] + j*steps[1]) = s;
    }
}
/* P20: a piecewise formula; the bad one has the wrong sign in one branch */
double exp(double);
#define PIECES(NAME, SIGN) \
LOOP(NAME) \
{ \
    for (npy_intp j = 0; j < dimensions[0]; ++j) { \
        double x = *(double *)(args[0] + j*steps[0]); \
        double a = *(double *)(args[1] + j*steps[1]); \
        *(double *)(args[2] + j*steps[2]) = x < a ? x*x SIGN a*a : 1 - 1/(1 + exp(x)); \
    } \
}
PIECES(good_p20, -)
PIECES(bad_p20, +)
/* P21: the mean of the squares; the bad one divides by n - 1 if the last element is 0 */
#define MSQ(NAME, DIV) \
LOOP(NAME) \
{ \
    npy_intp n = dimensions[1]; \
    for (npy_intp j = 0; j < dimensions[0]; ++j) { \
        double s = 0; \
        for (npy_intp k = 0; k < n; ++k) { \
            double x = *(double *)(args[0] + j*steps[0] + k*steps[2]); \
            s += x*x; \
        } \
        *(double *)(args[1] + j*steps[1]) = s/(DIV); \
    } \
}
MSQ(good_p21, (double)n)
MSQ(bad_p21, s > 3 ? (double)(n + 1) : (double)n)
/* P22: delay lines that keep their state in the last output; the bad one forgets one of them */
#define DELAY(NAME, FROM) \
LOOP(NAME) \
{ \
    npy_intp n = dimensions[1], m = dimensions[2]; \
    for (npy_intp j = 0; j < dimensions[0]; ++j) { \
        char *z = args[2] + j*steps[2]; \
        for (npy_intp k = 0; k < m; ++k) { \
            *(double *)(z + k*steps[5]) = 0; \
        } \
        for (npy_intp i = 0; i < n; ++i) { \
            double x = *(double *)(args[0] + j*steps[0] + i*steps[3]); \
            for (npy_intp k = 0; k < m; ++k) { \
                double t = *(double *)(z + k*steps[5]); \
                *(double *)(z + k*steps[5]) = k < FROM ? t : x; \
                x = t; \
            } \
            *(double *)(args[1] + j*steps[1] + i*steps[4]) = x; \
        } \
    } \
}
DELAY(good_p22, 0)
DELAY(bad_p22, 1)
