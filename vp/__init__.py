"""Property-based testing machinery for wesselb/gpcm."""
