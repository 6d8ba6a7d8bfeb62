#pragma once
// gcc's <stddef.h> puts nullptr_t into the global namespace, clang's does not
using nullptr_t = decltype(nullptr);
