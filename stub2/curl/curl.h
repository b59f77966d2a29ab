// nothing of libcurl is used by the sources under test
#pragma once
