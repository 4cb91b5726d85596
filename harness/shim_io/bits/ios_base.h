#include <bits/fake_io.h>
