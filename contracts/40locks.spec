// ---- the codec's lock (C17) ----
// Every function of the package has the same contract about Codec's mutexes:
// it is entered holding none and left (or unwound by a panic) holding none;
// guarded are all other fields of Codec and the contents of every map to
// *TypeInfo; a TypeInfo is not written to once others can reach it.
locks C17 Codec shared TypeInfo nonempty
  invariant C10 consistent       // every function that changes guarded state keeps the registry consistent (60codec.spec)
  trusted "(TypeInfo).String"    // debugging output, never called by the library
