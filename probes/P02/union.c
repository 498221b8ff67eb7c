#include <stdio.h>

union U {
    int a;
    int b;
};

int main(void) {
    union U u;
    u.a = 5;
    printf("%d\n", u.b);
    return 0;
}
