#pragma once
#define float SymF
#define double SymD
