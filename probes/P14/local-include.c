#include "local-include.h"
int main(void) {
    return LIMIT;
}
