#pragma once
#include_next <cereal/types/polymorphic.hpp>
#undef CEREAL_REGISTER_TYPE
#define CEREAL_REGISTER_TYPE(...)
#undef CEREAL_REGISTER_TYPE_WITH_NAME
#define CEREAL_REGISTER_TYPE_WITH_NAME(...)
#undef CEREAL_REGISTER_POLYMORPHIC_RELATION
#define CEREAL_REGISTER_POLYMORPHIC_RELATION(...)
