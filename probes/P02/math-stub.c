#include <math.h>
#include <stdio.h>

int main(void) {
    double d = sqrt(16.0);
    printf("%.3f\n", d);
    return 0;
}
