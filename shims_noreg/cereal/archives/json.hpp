#pragma once
// intentionally empty: only the serialization harness uses this archive
