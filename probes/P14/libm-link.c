#include <math.h>
#include <stdio.h>
double root(double x) {
    return sqrt(x);
}
int main(void) {
    printf("%d\n", 7);
    return 0;
}
