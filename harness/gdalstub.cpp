// Makes the drivers of /repo, linked in instead of loaded as plugins, known to the tool before the others
extern "C" void GDALRegister_MsatXRIT();
extern "C" void GDALRegister_MsatGRIB();
__attribute__((constructor)) static void drivers() { GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB(); }
