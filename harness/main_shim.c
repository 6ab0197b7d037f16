#include "app/main.c"
