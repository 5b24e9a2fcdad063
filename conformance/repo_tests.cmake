# The repository's own gtests, compiled against the stub layer: evidence that the stand-ins are faithful.
set(GT gmock gtest)
add_library(pluginxml OBJECT ${CMAKE_SOURCE_DIR}/conformance/plugin_xml_env.cpp)
function(rt name)
  cmake_parse_arguments(A "MAIN" "" "SRC;OBJ;INC" ${ARGN})
  add_executable(rt_${name} ${A_SRC})
  if(NOT A_MAIN)
    target_sources(rt_${name} PRIVATE ${CMAKE_SOURCE_DIR}/conformance/gmock_main.cpp)
  endif()
  target_include_directories(rt_${name} PRIVATE ${A_INC})
  target_compile_definitions(rt_${name} PRIVATE "TEST_FILES_DIRECTORY=\"${A_INC}\"" "PARAMETERS_FILE_PATH=\"${A_INC}/\"")
  target_link_options(rt_${name} PRIVATE -Wl,--allow-multiple-definition)
  foreach(o ${A_OBJ})
    target_link_libraries(rt_${name} PRIVATE ${o})
  endforeach()
  target_link_libraries(rt_${name} PRIVATE pluginxml stubs ${EXT} ${GT})
  add_dependencies(repo_tests rt_${name})
endfunction()
add_custom_target(repo_tests)
set(R ${REPO})
set(HT ${R}/hardware_interface/test)
foreach(t test_inst_hardwares test_handle test_component_interfaces test_component_interfaces_custom_export test_component_parser test_helpers test_lexical_casts test_macros)
  rt(${t} SRC ${HT}/${t}.cpp OBJ hw jl INC ${HT})
endforeach()
file(GLOB THC ${HT}/test_hardware_components/*.cpp)
rt(test_generic_system SRC ${HT}/mock_components/test_generic_system.cpp ${THC} OBJ hw mock jl INC ${HT})
set(JT ${R}/joint_limits/test)
foreach(t joint_limits_rosparam_test joint_limits_urdf_test test_joint_range_limiter test_joint_saturation_limiter test_joint_soft_limiter)
  rt(${t} SRC ${JT}/${t}.cpp OBJ jl INC ${JT})
endforeach()
set(TT ${R}/transmission_interface/test)
foreach(t differential_transmission_loader_test differential_transmission_test four_bar_linkage_transmission_loader_test four_bar_linkage_transmission_test simple_transmission_loader_test simple_transmission_test utils_test)
  rt(${t} SRC ${TT}/${t}.cpp OBJ ti hw jl INC ${TT})
endforeach()
set(CT ${R}/controller_interface/test)
file(GLOB CTS RELATIVE ${CT} ${CT}/*.cpp)
foreach(t ${CTS})
  get_filename_component(n ${t} NAME_WE)
  rt(ci_${n} SRC ${CT}/${t} OBJ ci hw jl INC ${CT})
endforeach()
set(XT ${R}/hardware_interface_testing/test)
file(GLOB XTC ${XT}/test_components/*.cpp)
foreach(t test_resource_manager test_resource_manager_prepare_perform_switch test_rm_exception_handling)
  rt(${t} SRC ${XT}/${t}.cpp ${XTC} ${THC} OBJ hw mock jl INC ${XT})
endforeach()
set(MT ${R}/controller_manager/test)
file(GLOB MTC ${MT}/test_controller*/*.cpp ${MT}/test_chainable_controller/*.cpp)
file(GLOB MTS RELATIVE ${MT} ${MT}/test_*.cpp)
add_library(mtc OBJECT ${MTC} ${XTC} ${THC})
target_include_directories(mtc PRIVATE ${MT})
list(FILTER MTS EXCLUDE REGEX spawner)
foreach(t ${MTS})
  get_filename_component(n ${t} NAME_WE)
  rt(cm_${n} SRC ${MT}/${t} OBJ mtc cm ci hw mock jl INC ${MT})
endforeach()
