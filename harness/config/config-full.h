/*
 * Autogenerated by the Meson build system.
 * Do not edit, your changes will be lost.
 */

#pragma once

#define ALIGN_OF_UCONTEXT 8

#define HAVE_EVENTFD 1

#define HAVE_LIBURING 1

#define HAVE_MADVISE 1

#define HAVE_MPROTECT 1

#define HAVE_POSIX_FADVISE 1

#define HAVE_UCONTEXT_H 1

#define PACKAGE_VERSION "0.9.0"

#define _DEX_EXTERN __attribute__((visibility("default"))) extern

