package unit
