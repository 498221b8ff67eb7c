#include <stdio.h>
int main(void) {
    int i = 1;
    while (i > 0) {
        i = 3 - i;
    }
    return 0;
}
