#include <gmock/gmock.h>
#include <unistd.h>
extern "C" int main(int argc, char ** argv) __attribute__((weak));
int main(int argc, char ** argv) { testing::InitGoogleMock(&argc, argv); return RUN_ALL_TESTS(); }
