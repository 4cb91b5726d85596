#include "vtk_model.h"
