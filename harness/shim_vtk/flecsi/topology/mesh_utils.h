// stand-in for FleCSI: nothing of this header is needed here
#pragma once
