title = "Online learning updates every model as defined, and what is saved is in use"
statement = """Each sentence pair that online training acknowledges changes the models as incremental training defines, whatever was trained, translated,
printed or loaded before and by which user: the n-grams of the target sentence get the learning step, the alignment models are those that the same
incremental training gives, and the phrase pairs consistent with their symmetrised alignment are counted.
With interlaced training each sample is trained again at the defined intervals and its new phrase pairs replace the old ones.
Pairs without source or target words are refused and change nothing; models other than the main ones do not change.
The models printed are the ones in use: loaded again they give the same answers, with the same scores, and learning goes on from them."""
over = ["inputs", "histories"]
quant = "all sentence pairs, learning steps, interlacing parameters, and sequences of training, translation, print and load requests of several users"
tests = """One test trains a single sentence pair through the server and checks that an answer comes back."""
files = ["src/stack_dec/StdFeatureHandler.cc", "src/stack_dec/ThotDecoder.cc", "src/phrase_models/PhraseExtractUtils.cc",
         "src/phrase_models/StrictCategPhrasePairFilter.cc"]
mech = [("StdFeatureHandler::incrTrainFeatsSentPair", "src/stack_dec/StdFeatureHandler.cc"),
        ("StdFeatureHandler::trainAligModel", "src/stack_dec/StdFeatureHandler.cc"),
        ("StdFeatureHandler::addNewTransOpts", "src/stack_dec/StdFeatureHandler.cc"), ("ThotDecoder::onlineTrainSentPair", "src/stack_dec/ThotDecoder.cc"),
        ("ThotDecoder::printModels", "src/stack_dec/ThotDecoder.cc")]
technique = "runtime monitoring: a shadow of the models updated by the definition, compared with what the running decoder prints, under ASan+UBSan"
note = """Held on every generated history. Sentences of at most five words, histories of at most fourteen requests (a few of 15 and 60); HMM alignment models.
The alignment models of the shadow are of the same class as those of the decoder (their training is decided by P07)."""
