# cmake -DREPO=/repo -DOUT=dir -P gen_config.cmake : the configuration headers, with the
# same settings the repository's own CMakeLists.txt makes by default.
set(PDC_VERSION_MAJOR "0")
set(PDC_VERSION_MINOR "1")
set(PDC_VERSION_PATCH "0")
set(PDC_DART_SFX_TREE 1)
set(ENABLE_MPI 1)
set(PDC_SERVER_CACHE 1)
set(PDC_ENABLE_CHECKPOINT 1)
set(HAVE_ATTRIBUTE 1)
foreach(p FLOAT=4 DOUBLE=8 CHAR=1 SINT=2 INT=4 LINT=8 LLINT=8 UINT=4 ULINT=8 ULLINT=8 64INT=8 U64INT=8)
  string(REPLACE "=" ";" kv ${p})
  list(GET kv 0 k)
  list(GET kv 1 v)
  set(VAR_SIZE_${k} ${v})
  set(VAR_SIZE_${k}_CODE "#define VAR_SIZE_${k} ${v}")
endforeach()
configure_file(${REPO}/pdc_config_sys.h.cmake ${OUT}/pdc_config_sys.h)
configure_file(${REPO}/pdc_config.h.in ${OUT}/pdc_config.h)
