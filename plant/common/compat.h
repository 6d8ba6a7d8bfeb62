#pragma once
using nullptr_t = decltype(nullptr);
