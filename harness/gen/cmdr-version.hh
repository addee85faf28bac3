//
// Created by Hedzr Yeh on 2019-01-28.
//

#ifndef __CMDR_VERSION_H
#define __CMDR_VERSION_H


#ifndef xT
#define xT(str) str
#endif

/*  NB: this file is parsed by automatic tools so don't change its format! */

#define CMDR_MAJOR_VERSION      0
#define CMDR_MINOR_VERSION      6
#define CMDR_PATCH_NUMBER       3
#define CMDR_RELEASE_NUMBER     1

#define CMDR_PROJECT_NAME       xT("cmdr-cxx")
#define CMDR_VERSION_STRING     xT("0.6.3.1")
#define CMDR_VERSION_STR        xT("0.6.3")
#define CMDR_ARCHIVE_NAME       xT("cmdr-cxx-0.6.3.1")
#define CMDR_DESCRIPTION        xT("cmdr-cxx is a POSIX-compliant command-line arguments parser in C++, its part of cmdr series.")

#define CMDR_GIT_BRANCH         xT("main")
#define CMDR_GIT_TAG            xT("")
#define CMDR_GIT_TAG_LONG       xT("")
#define CMDR_GIT_REV            xT("c1c630a")
#define CMDR_GIT_COMMIT_HASH    xT("c1c630a0b5ad349ee5db3b79616ce8cee84e2a7e")


#endif //__CMDR_VERSION_H
