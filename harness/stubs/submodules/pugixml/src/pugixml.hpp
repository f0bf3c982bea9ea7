#include </usr/include/pugixml.hpp>
