// Instantiates the image container in full: the code verified is image_buffer.h of the repository, nothing is added here.
#include "image_buffer.h"
template class penguinV::ImageTemplate<uint8_t>;
template class penguinV::ImageTemplate<uint16_t>;
