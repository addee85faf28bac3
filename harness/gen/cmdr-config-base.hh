//
// Created by Hedzr Yeh on 2019-01-28.
//

#ifndef __CMDR_CONFIG_BASE_H
#define __CMDR_CONFIG_BASE_H

#ifndef xT
#define xT(str) str
#endif

/*  NB: this file is parsed by automatic tools so don't change its format! */

#define CMDR_CPU              xT("x86_64")
#define CMDR_CPU_ARCH         64
#define CMDR_CPU_ARCH_NAME    xT("x86_64")

#ifndef USE_DEBUG_MALLOC
#define USE_DEBUG_MALLOC 1
#endif
#ifndef USE_DEBUG
#define USE_DEBUG 1
#endif

/**/

#define CMDR_BUILD_NAME       xT("dbg")

#ifndef CMDR_ENABLE_ASSERTIONS
#define CMDR_ENABLE_ASSERTIONS 0
#endif
#ifndef CMDR_ENABLE_PRECONDITION_CHECKS
#define CMDR_ENABLE_PRECONDITION_CHECKS 0
#endif
#ifndef CMDR_ENABLE_THREAD_POOL_READY_SIGNAL
#define CMDR_ENABLE_THREAD_POOL_READY_SIGNAL 0
#endif
// (CMDR_ENABLE_VERBOSE_LOG is left undefined: the library only asks whether it is defined)
#ifndef CMDR_TEST_THREAD_POOL_DBGOUT
#define CMDR_TEST_THREAD_POOL_DBGOUT 0
#endif
#ifndef CMDR_UNIT_TEST
#define CMDR_UNIT_TEST 0
#endif

/**/

#ifndef __COMPILER_ID_DEF
#define __COMPILER_ID_DEF

/* Clang, GNU, MSVC, Intel, ..., see CMAKE_CXX_COMPILER_ID */
#define BUILD_COMPILER_ID                  xT("GNU")
#define BUILD_COMPILER_FRONTEND_VARIANT    xT("GNU")
#define BUILD_COMPILER_VERSION             xT("13.3.0")

#define USING_CLANG_APPLE 0
#define USING_CLANG_LLVM 0
#define USING_CLANG_FRONTEND_CL     /* llvm clang with MSVC frontend */ 0
#define USING_CLANG_FRONTEND_MSVC USING_CLANG_FRONTEND_CL
#define USING_CLANG_FRONTEND_GNU    /* llvm clang with gcc frontend */ 0
#define USING_CLANG_FRONTEND_OTHERS /* llvm clang with others */ 0
#define USING_GCC 1
#define USING_GNU 1
#define USING_MSVC 0
#define USING_Intel 0
#define USING_UNKNOWN_COMPILER 0

#define USING_POSITION_INDEPENDENT_CODE 1
#define USING_PIC 1
#define USING_BIG_ENDIAN 0

#endif /*__COMPILER_ID_DEF*/

/* build info */

#if !defined(BUILD_TIMESTAMP) && !defined(BUILD_HOST_NAME) 
#define BUILD_HOST_NAME         xT("Linux")
#define BUILD_HOST_CPU          xT("x86_64")
#define BUILD_HOST_VERSION      xT("6.18.44-fc-v338")
#define BUILD_HOST              xT("Linux-6.18.44-fc-v338")
#define BUILD_DISTRO            xT("Ubuntu")    /* Just for Linux */
#define BUILD_TIMESTAMP         xT("2025-02-22T02:06:40Z")
#endif

/* build options */

#if !defined(USE_CONAN)
#define USE_CONAN 0
#endif
#if !defined(USE_VCPKG)
#define USE_VCPKG 0
#endif

#if !defined(ENABLE_CCACHE)
#define ENABLE_CCACHE 0
#endif
#if !defined(ENABLE_EXAMPLES)
#define ENABLE_EXAMPLES 1
#endif
#if !defined(ENABLE_TESTS)
#define ENABLE_TESTS 1
#endif
#if !defined(ENABLE_AUTOMATE_TESTS)
#define ENABLE_AUTOMATE_TESTS 0
#endif
#if !defined(ENABLE_PPPM_WARNINGS)
#define ENABLE_PPPM_WARNINGS 0
#endif

#define _BUILD_TESTS_EXAMPLES 0
#define _BUILD_DOCS 0

#ifndef CMDR_ENABLE_ASSERTIONS
#define CMDR_ENABLE_ASSERTIONS 0
#endif
#ifndef CMDR_ENABLE_PRECONDITION_CHECKS
#define CMDR_ENABLE_PRECONDITION_CHECKS 0
#endif
#ifndef CMDR_ENABLE_THREAD_POOL_READY_SIGNAL
#define CMDR_ENABLE_THREAD_POOL_READY_SIGNAL 0
#endif
// (CMDR_ENABLE_VERBOSE_LOG is left undefined: the library only asks whether it is defined)
#ifndef CMDR_TEST_THREAD_POOL_DBGOUT
#define CMDR_TEST_THREAD_POOL_DBGOUT 0
#endif
#ifndef CMDR_UNIT_TEST
#define CMDR_UNIT_TEST 0
#endif


/* env tests */


#if !defined(_HZCXX_ENV_TEST)
#define ___HZCXX_ENV_TEST

/* Define to 1 if you have the `BSDgettimeofday' function. */
#undef HAVE_BSDGETTIMEOFDAY

/* Define if the copysign function/macro is available. */
#define HAVE_COPYSIGN

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H

/* Define if the fpclassify() function/macro is available. */
/* #undef HAVE_FPCLASSIFY */

/* Define to 1 if you have the <getopt.h> header file. */
#define HAVE_GETOPT_H

/* Define to 1 if you have the `getpid' function. */
#define HAVE_GETPID

/* Define if syscall(SYS_gettid) available. */
#undef HAVE_GETTID_SYSCALL

/* Define to 1 if you have the `gettimeofday' function. */
#define HAVE_GETTIMEOFDAY

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H

/* Define if the isinf() function/macro is available. */
#define HAVE_ISINF

/* Define if the isnan() function/macro is available. */
#define HAVE_ISNAN

/* Define to 1 if you have the `m' library (-lm). */
#undef HAVE_LIBM

/* Define to 1 if you have the <memory.h> header file. */
#define HAVE_MEMORY_H

/* Define to 1 if you have the `qsort_r' function. */
#define HAVE_QSORT_R

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TIME_H

/* Define to 1 if you have the <termios.h> header file. */
#define HAVE_TERMIOS_H

/* Define to 1 if you have the `time' function. */
#define HAVE_TIME

/* Define to 1 if the system has the type `uint32_t'. */
#define HAVE_UINT32_T

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H


/* The size of `uint32_t', as computed by sizeof. */
#define SIZEOF_UINT32_T       4

/* The size of `unsigned int', as computed by sizeof. */
#define SIZEOF_UNSIGNED_INT   4

/* The size of `unsigned long', as computed by sizeof. */
#define SIZEOF_UNSIGNED_LONG  8

#define HAVE_LIBM

#define HAVE_STDIO_AND_STRING_H

#define HAVE_EX_UNISTD_H


#endif /* ___HZCXX_ENV_TEST */


#endif  //__CMDR_CONFIG_BASE_H
