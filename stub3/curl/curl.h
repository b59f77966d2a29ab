// Stand-in for the part of libcurl that the srcml client uses; the harness defines the functions.
#pragma once
#include <cstddef>
typedef void CURL;
typedef int CURLcode;
const CURLcode CURLE_OK = 0;
enum { CURL_GLOBAL_DEFAULT = 3, CURLVERSION_NOW = 4, CURLAUTH_ANY = -17 };
enum CURLINFO { CURLINFO_RESPONSE_CODE };
enum CURLoption {
    CURLOPT_SSL_VERIFYPEER, CURLOPT_SSL_VERIFYHOST, CURLOPT_HTTPAUTH, CURLOPT_FOLLOWLOCATION, CURLOPT_VERBOSE,
    CURLOPT_WRITEDATA, CURLOPT_WRITEFUNCTION, CURLOPT_URL, CURLOPT_USERAGENT, CURLOPT_LOW_SPEED_LIMIT,
    CURLOPT_LOW_SPEED_TIME, CURLOPT_FAILONERROR
};
struct curl_version_info_data { const char* version; const char* const* protocols; };
curl_version_info_data* curl_version_info(int);
CURLcode curl_global_init(long);
void curl_global_cleanup();
CURL* curl_easy_init();
CURLcode curl_easy_setopt(CURL*, CURLoption, ...);
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...);
CURLcode curl_easy_perform(CURL*);
void curl_easy_cleanup(CURL*);
