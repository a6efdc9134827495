// PublicDecompWT (wavelet decompression) is not installed: the image data decoder is replaced by a stub that is never reached
#include <msat/hrit/MSG_data_image.h>
#include <cstdlib>
#include <iostream>
std::ostream& operator<< ( std::ostream& os, MSG_data_image & ){ return os; }
void MSG_data_image_encoded::decode( MSG_data_image * ){ abort(); }
