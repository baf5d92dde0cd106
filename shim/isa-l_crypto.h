#pragma once
#define ISAL_CRYPTO_MAJOR_VERSION 2
#define ISAL_CRYPTO_MINOR_VERSION 24
#define ISAL_CRYPTO_PATCH_VERSION 0
