"""Runtime-verification machinery for deltares_wave_toolbox."""
