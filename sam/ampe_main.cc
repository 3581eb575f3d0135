// Runs the ampe executable's object with the command line of source/main.cc,
// or for a sequence of inputs in one process.
#include "AMPE.h"
#include <string>
int main(int argc, char* argv[])
{
   try {
      AMPE ampe(0);
      ampe.initialize(argv[1], argc == 4 ? argv[2] : "", argc == 4 ? atoi(argv[3]) : -1);
      ampe.run();
   } catch (SamAbort& e) {
      std::cerr << "ABORT: " << e.what() << std::endl;
      return 3;
   }
   return 0;
}
