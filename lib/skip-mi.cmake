# /repo/CMakeLists.txt requires two libraries only its command line programs and C++ tests use
macro(skip_mi method package)
  if("${package}" MATCHES "^mi-(programoptions|cpptest)$")
    set(${package}_FOUND TRUE)
    set(${package}_VERSION "1.0.0")
  endif()
endmacro()
cmake_language(SET_DEPENDENCY_PROVIDER skip_mi SUPPORTED_METHODS FIND_PACKAGE)
# compiled, but not linked with these options
if(VF_COPTS)
  add_compile_options(${VF_COPTS})
endif()
