// Header-only mode: the runtime generator compiled from its implementation header.
#include <integratorxx/generators/impl/impl.hpp>
