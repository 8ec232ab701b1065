// Stand-in: the installed Abseil predates this header.
#pragma once
#define absl_nonnull
#define absl_nullable
