// the python trampoline is not part of these builds
#pragma once
