#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

S = 'source/'
prop('B01', 'Binary file header round trip',
 'Writing an experience to the binary file format and reading the result back yields the same experience metadata: version, date, timescale-independent descriptions, every avatar, perception, reference device and channel with all their ids, modalities, exponents, masks, vertices, directions, resolutions, targets and optional fields present exactly when they were present. '
 'Integer and enumerated fields come back equal whenever they fit the field width of the format, and real-valued fields come back within one quantisation step of the format.',
 ['inputs', 'configurations'], 'For every experience whose fields fit the widths of the binary format, with any combination of optional fields present or absent.',
 'The tests write a handful of hand-made experiences with a fixed choice of fields; a swapped field, wrong width or missed optional flag shows only for values and field combinations they do not use.',
 [S+'IOHaptics/src/IOBinary.cpp', S+'IOHaptics/include/IOBinaryFields.h', S+'IOHaptics/include/IOBinaryPrimitives.h'],
 [('header, avatars, perceptions, reference devices, channels writer and reader', S+'IOHaptics/src/IOBinary.cpp')])
prop('B02', 'Binary band and effect round trip',
 'Writing the bands of a channel to the binary file format and reading them back yields bands of the same type, curve, frequency limits and block length, holding the same effects in the same order with the same type, position, reference id and keyframes. '
 'Each keyframe keeps its position, a vectorial keyframe keeps amplitude and frequency exactly when it had them (transient keyframes always carry both and curve keyframes an amplitude, missing ones reading as zero), wavelet effects keep their coded bytes, and amplitudes and phases come back within one quantisation step; the reader consumes exactly the bits that were written.',
 ['inputs', 'configurations'], 'For every band type, effect type and keyframe content whose fields fit the widths of the format (effect counts and keyframe counts bounded per query).',
 'Existing tests check a few fixed bands; the format is bit-packed and branches on band type, effect type and the presence mask, so a slip at one combination goes unseen.',
 [S+'IOHaptics/src/IOBinaryBands.cpp', S+'IOHaptics/include/IOBinaryFields.h'],
 [('band header and body writer and reader', S+'IOHaptics/src/IOBinaryBands.cpp')])
prop('B03', 'Effect library round trip in binary files',
 'Writing an effect library to the binary file format terminates and reading it back yields the same library effects in the same order: id, position, phase and base signal, keyframes, referenced ids, and for composite effects the same timeline of nested effects. '
 'Quantised values come back within one quantisation step.',
 ['inputs', 'programs'], 'For every library of basis, reference and composite effects with nesting and counts within the bound.',
 'The tests never write a composite library effect and use a few fixed keyframe values.',
 [S+'IOHaptics/src/IOBinary.cpp', S+'IOHaptics/src/IOBinaryBands.cpp'],
 [('library and timeline effect writers and readers', S+'IOHaptics/src/IOBinary.cpp'), ('timeline effects inside bands', S+'IOHaptics/src/IOBinaryBands.cpp')])
prop('B04', 'Bit field primitives are exact and aligned',
 'A value written into an N-bit field and read back is the same value whenever it is representable in N bits (unsigned, signed, and text up to the length the length prefix can hold), wherever the field starts in the bit stream. '
 'Writer and reader advance by exactly the same number of bits and never touch neighbouring fields.',
 ['inputs'], 'For every value, every field width used by the formats and every starting bit offset.',
 'Tests try a few values at offset zero; sign and boundary values at odd offsets are the failures that matter.',
 [S+'IOHaptics/include/IOBinaryPrimitives.h', S+'IOHaptics/src/IOBinaryPrimitives.cpp', S+'IOHaptics/include/IOStream.h'],
 [('N-bit readers and writers', S+'IOHaptics/include/IOBinaryPrimitives.h')])
prop('B05', 'Quantised real fields: bounded error, range and stability',
 'A real value stored in a quantised field is read back inside the field range and within one quantisation step (or single-precision resolution, where coarser) of the value (clamped to the range), and larger values never read back smaller than smaller ones. '
 'Storing a value that was itself read from a file changes it by at most one further step, and the end points of the range are reproduced exactly.',
 ['inputs'], 'For every real value (including out-of-range ones) and every range/width pair used by the formats.',
 'Tests compare a few decimals with a loose tolerance; rounding and sign faults appear for isolated values.',
 [S+'IOHaptics/include/IOBinaryPrimitives.h', S+'IOHaptics/include/IOBinaryFields.h'],
 [('N-bit normalised float writer and reader', S+'IOHaptics/include/IOBinaryPrimitives.h')])
prop('B06', 'Hostile binary input never corrupts memory',
 'Reading an arbitrary or truncated sequence of bytes as a binary haptic file either fails cleanly or produces an experience; it never reads or writes outside its buffers, divides by zero, or loops without consuming input.',
 ['inputs', 'fault_sequences'], 'For every byte sequence up to the stated length, at each reader of the format.',
 'Tests only read what the writer produced.',
 [S+'IOHaptics/src/IOBinary.cpp', S+'IOHaptics/src/IOBinaryBands.cpp', S+'IOHaptics/src/IOBinaryPrimitives.cpp'],
 [('file, library and band readers', S+'IOHaptics/src/IOBinary.cpp')])
prop('C01', 'Code tables are mutually inverse',
 'Every enumerated value of the data model has exactly one code or name in the file formats and the code or name maps back to the same value; unknown names are never silently mapped to a known value.',
 ['inputs'], 'For every value of every enumeration (base signal, effect type, band type, curve type, modality, actuator type, avatar type, body part target, effect semantics).',
 'Round-trip tests touch a few members of each table.',
 [S+'Types/include/BodyPartTarget.h', S+'Types/include/EffectSemantic.h', S+'Types/include/CurveType.h', S+'Types/include/BandType.h'],
 [('lookup tables', S+'Types/include/EffectSemantic.h')])
prop('S01', 'Streaming metadata round trip',
 'Encoding any metadata (experience, avatar, perception, reference device, channel, band, library effect) as stream packets and decoding them yields the same metadata, with optional fields present exactly when they were present and real values within one quantisation step. Perceptions, channels and bands that carry no effect at all are not streamed, and an absent priority is the same as priority zero.',
 ['inputs', 'configurations'], 'For every metadata record whose fields fit the stream field widths, with any combination of optional fields.',
 'Stream tests use a few fixed records; a bit offset slip for one optional-field combination desynchronises the rest of the packet only for that combination.',
 [S+'IOHaptics/src/IOStream.cpp', S+'IOHaptics/include/IOStream.h', S+'IOHaptics/include/IOBinaryFields.h'],
 [('metadata packet writers and readers', S+'IOHaptics/src/IOStream.cpp')])
prop('S02', 'Streamed effects arrive once, at the right time',
 'Packetising an experience and decoding its units in order reproduces, in the right perception, channel and band, every effect and every keyframe exactly once, at the same time and with the same values up to quantisation, however the effects straddle packet boundaries. Effects keep their type, semantic and id (one without an id gets a free one, wavelet blocks are renumbered), and the members of a composite placed at time zero arrive as effects of the band; effect ids are unique within a band and wavelet blocks follow one another without gaps.',
 ['inputs', 'configurations'], 'For every placement of effects and keyframes relative to the packet grid and every packet duration (counts bounded per query).',
 'Tests stream one fixed band with one packet duration; boundary placement decides correctness.',
 [S+'IOHaptics/src/IOStream.cpp'],
 [('payload packetisation and data readers', S+'IOHaptics/src/IOStream.cpp')])
prop('S03', 'Stream framing is self-consistent',
 'Every packet and unit a stream writer produces is byte aligned, its length field counts exactly the bytes that follow its header, and a reader that trusts those lengths visits every packet of every unit in order and nothing else.',
 ['inputs', 'configurations'], 'For every payload size, packet type, layer and number of packets within the bound.',
 'Tests never compare length fields with the bits around them for payload sizes other than their samples.',
 [S+'IOHaptics/src/IOStream.cpp'],
 [('packet and unit headers', S+'IOHaptics/src/IOStream.cpp')])
prop('S04', 'Stream CRC detects corruption',
 'A checksum computed for a group of packets verifies on the unmodified packets, and fails when the protected bits are altered by any single-bit error or any burst not longer than the checksum.',
 ['inputs', 'fault_sequences'], 'For every packet content up to the stated length, every checksum width, and every error pattern of the stated class.',
 'Tests compute one checksum; the error patterns are exponentially many.',
 [S+'IOHaptics/src/IOStream.cpp'],
 [('CRC computation and check', S+'IOHaptics/src/IOStream.cpp')])
prop('S05', 'Hostile stream input never corrupts memory',
 'Decoding an arbitrary or truncated bit sequence as stream packets never reads outside the received bits, never loops forever, and reports failure rather than success when a packet could not be decoded.',
 ['inputs', 'fault_sequences'], 'For every bit sequence up to the stated length at each packet reader.',
 'Tests only decode what the writer produced.',
 [S+'IOHaptics/src/IOStream.cpp'], [('unit and packet readers', S+'IOHaptics/src/IOStream.cpp')])
prop('J01', 'JSON document round trip',
 'Converting an experience to the JSON interchange tree and loading that tree yields the same experience: every avatar, perception, reference device, channel, band, effect and keyframe with the same values, and optional fields present exactly when they were present.',
 ['inputs', 'configurations'], 'For every valid experience within the size bounds and any combination of optional fields.',
 'Tests load and write a few fixed files; a dropped or swapped member shows only when that member is set.',
 [S+'IOHaptics/src/IOJson.cpp', S+'IOHaptics/src/IOJsonPrimitives.cpp'],
 [('extract and load functions', S+'IOHaptics/src/IOJson.cpp')])
prop('J02', 'Wavelet bit stream text encoding is lossless',
 'The text form of a wavelet bit stream decodes to the same bit stream (up to trailing zero bits, which carry no information), uses only the documented alphabet, and both directions accept any content, including empty and all-zero streams.',
 ['inputs'], 'For every byte sequence up to the stated length.',
 'Tests use one stream taken from an encoder.',
 [S+'IOHaptics/src/IOJson.cpp'], [('bits, bytes and base64 conversions', S+'IOHaptics/src/IOJson.cpp')])
prop('J03', 'Conformance check accepts exactly the conformant',
 'The conformance check of a loaded experience reports success exactly when the rules it documents hold: a well-formed version, date, profile, level and timescale, unique ids at each level, references that resolve, frequency limits in order, unit directions, targets inside the resolution, known semantics under a urn scheme, and the limits of the declared profile and level.',
 ['inputs', 'configurations'], 'For every experience within the size bounds.',
 'There are few negative tests; each rule quantifies over all pairs of entities.',
 [S+'IOHaptics/src/IOJson.cpp'], [('semantic conformance checks', S+'IOHaptics/src/IOJson.cpp')])
prop('T01', 'Keyframes of an effect stay ordered',
 'Amplitudes and frequencies added to an effect at any positions in any order, and whole keyframes appended in time order, leave the keyframes sorted by position; each addition either updates the keyframe already at its position or inserts one (an amplitude that must not override is always inserted), and no other keyframe changes. '
 'Replacing or removing a keyframe affects exactly the indexed one, and a missing index changes nothing and reports failure.',
 ['histories', 'inputs'], 'For every sequence of additions within the bound and every position and value.',
 'Tests add in a few fixed orders.',
 [S+'Types/src/Effect.cpp'], [('keyframe insertion', S+'Types/src/Effect.cpp')])
prop('T02', 'Effects of a band stay ordered and do not overlap silently',
 'Effects added to a band in any order are kept sorted by position with none lost, and an effect is reported to overlap a time span exactly when the two share an instant. Replacing or removing an effect touches only the indexed one and reports whether it exists; a channel asked for a free band offers one of its bands of the requested type with no effect in the span exactly when there is one, and otherwise none.',
 ['histories', 'inputs'], 'For every sequence of insertions within the bound and every span.',
 'Tests use a few fixed positions.',
 [S+'Types/src/Band.cpp', S+'Types/src/Channel.cpp'], [('effect insertion, overlap test, band search', S+'Types/src/Band.cpp')])
prop('T03', 'Factoring effects into a library preserves the signal',
 'Moving repeated effects into the effect library and expanding the library back leaves every channel with the same effects at the same positions with the same content (semantics and wavelet data included), references nested in composite effects resolved too; after factoring every new reference resolves to exactly one library effect with the content of the effect it replaced, and library ids are unique.',
 ['inputs', 'histories'], 'For every experience within the bound, with any repetition pattern and any pre-existing library.',
 'Tests refactor one fixed experience.',
 [S+'Types/src/Perception.cpp', S+'Types/src/Haptics.cpp', S+'Types/src/Effect.cpp'],
 [('refactor and linearise', S+'Types/src/Perception.cpp')])
prop('T04', 'Rendering is bounded, silent outside effects, and terminates',
 'Evaluating or rendering a channel always terminates and yields finite values in [-1, 1], the clamped sum of its bands, and zero before the first and after the last effect of a band. A linear or cubic curve effect has each keyframe amplitude at that keyframe (evaluation ends at the last one) and follows its curve between neighbours; a vectorial effect is its base signal as one uninterrupted tone, scaled by the linearly interpolated amplitudes; a transient sounds for 22 ms after its keyframe, and a wavelet effect plays its samples in order. Rendering a file yields one sample sequence per channel, of the length of the file and its paddings, scaled by gain and unit exponent.',
 ['inputs'], 'For every band type and keyframe content within the bound and every evaluation time.',
 'Tests evaluate a few points of a few effects.',
 [S+'Types/src/Effect.cpp', S+'Types/src/Band.cpp', S+'Types/src/Channel.cpp'],
 [('evaluation functions', S+'Types/src/Effect.cpp')])
prop('T05', 'Durations cover every effect',
 'The length of a keyframe effect is the time of its last positioned keyframe (plus one transient duration in a transient band, zero if no keyframe is positioned); a band lasts until its latest effect ends, and a file as long as its longest channel, whose length is given by its sample count where it has one and by its bands otherwise.',
 ['inputs'], 'For every band within the bound.',
 'Tests check a few fixed durations.',
 [S+'Types/src/Band.cpp', S+'Types/src/Effect.cpp'], [('time length functions', S+'Types/src/Band.cpp')])
prop('T06', 'Metadata update replaces metadata and keeps content',
 'Updating the metadata of a perception, channel or band in place makes every metadata field equal to the new record (absent exponents and schemes reading as their defaults; a perception also takes over the reference devices and effect library of the record, a band its curve or block length as its type asks) and leaves the nested channels, bands and effects exactly as they were. Replacing or removing an entity touches only the indexed one; other entities are untouched, and an out-of-range index changes nothing and reports failure.',
 ['inputs', 'histories'], 'For every pair of records and every index.',
 'Tests replace one record and compare a few fields.',
 [S+'Types/src/Haptics.cpp', S+'Types/src/Perception.cpp', S+'Types/src/Channel.cpp'],
 [('replace-metadata operations', S+'Types/src/Haptics.cpp')])
prop('W01', 'Set-partitioning wavelet coder is lossless',
 'Encoding any block of integer wavelet coefficients within the declared bit depth and decoding the resulting bit stream yields exactly the same coefficients, bit depth and (transmittable) scale factor; a block of zeros is coded as nothing and decodes to zeros. Encoder and decoder consume the same bits in the same contexts and can be used for one block after another.',
 ['inputs'], 'For every coefficient block of the stated lengths and depths.',
 'Tests encode a few random blocks.',
 [S+'Spiht/src/Spiht_Enc.cpp', S+'Spiht/src/Spiht_Dec.cpp'], [('SPIHT encoder and decoder', S+'Spiht/src/Spiht_Enc.cpp')])
prop('W02', 'Arithmetic coder is lossless',
 'Arithmetic coding any sequence of bits under any sequence of contexts and decoding with the same contexts returns the same bits, including after the output is packed into bytes, and repeatedly on one coder object.',
 ['inputs', 'histories'], 'For every bit and context sequence up to the stated length, and every reachable adaptive state at a single step.',
 'Tests code a few sequences.',
 [S+'Spiht/src/ArithEnc.cpp', S+'Spiht/src/ArithDec.cpp'], [('encoder and decoder interval arithmetic', S+'Spiht/src/ArithEnc.cpp')])
prop('W03', 'Wavelet transform reconstructs perfectly',
 'Applying the forward wavelet transform and then the inverse with the same number of levels reproduces every input sample up to numerical noise, for every block and level the codec uses.',
 ['inputs'], 'For every real-valued block of the codec block lengths (amplitude bounded) and every level.',
 'The only test transforms one signal.',
 [S+'FilterBank/src/Wavelet.cpp', S+'FilterBank/include/Wavelet.h'], [('forward and inverse transform', S+'FilterBank/src/Wavelet.cpp')])
prop('W04', 'Wavelet coefficients are quantised within half a step',
 'Quantising wavelet coefficients for a given bit budget never exceeds the representable range, keeps signs, is within half a quantisation step for in-range values, and clips values beyond the range. The transmitted scale is the smallest representable scale (128ths below one, eighths above) not below any coefficient of the block, saturating at the largest scale of its range, and its transmitted bits give exactly that scale.',
 ['inputs'], 'For every coefficient value, scale and bit depth.',
 'The encoder is not even linked into the tests.',
 [S+'Encoder/src/WaveletEncoder.cpp', S+'Spiht/src/Spiht_Enc.cpp', S+'Spiht/src/Spiht_Dec.cpp'],
 [('quantiser and scale coding', S+'Encoder/src/WaveletEncoder.cpp')])
prop('W05', 'Wavelet band decoding places every block',
 'Decoding a wavelet band, in place or to one signal, turns each coded effect into one block of time samples in order, scaled by the transmitted scale; the block length in samples is the power of two nearest to the band block length converted from ticks to samples. In place, block n is positioned at its first sample converted to ticks (rounded down); bands of other types and bands whose block length is unusable (fewer than 16 samples) are left alone. Malformed blocks never cause out-of-bounds access, and with the full bit budget encoding a signal and decoding it gives its samples back.',
 ['inputs'], 'For every band of coded blocks within the bound.',
 'One test decodes one signal.',
 [S+'WaveletDecoder/src/WaveletDecoder.cpp'], [('band transformation', S+'WaveletDecoder/src/WaveletDecoder.cpp')])
prop('W06', 'Hostile wavelet blocks decode safely',
 'Decoding an arbitrary, truncated or empty wavelet bit stream terminates after a number of symbols bounded by the block length and the announced depth, reads no bit beyond the stream, never touches memory outside its buffers, and yields exactly one block of coefficients of magnitude below the announced depth with a depth and scale the format can carry. It leaves nothing behind: the next block decodes as with a fresh decoder.',
 ['inputs', 'histories'], 'For every bit stream, through every sequence of decoded symbols within the stated bounds.',
 'Tests decode only streams their own encoder produced.',
 [S+'Spiht/src/Spiht_Dec.cpp', S+'Spiht/src/ArithDec.cpp'], [('set partitioning decoder', S+'Spiht/src/Spiht_Dec.cpp'), ('interval arithmetic of the decoder', S+'Spiht/src/ArithDec.cpp')])
prop('I01', 'Interpolation passes through its points',
 'Linear, cubic, spline and Akima interpolation of points at increasing times starting at zero returns one value per integer time from the first to the last point and passes through every point; linear and cubic interpolation also stay between neighbouring points, and coincident points never give a non-finite value. Interpolating between two points holds the end values outside, and normalisation maps the input range end points onto the output range end points, proportionally in between.',
 ['inputs'], 'For every list of strictly increasing points within the bound and every query time.',
 'Tests check three fixed configurations.',
 [S+'Tools/src/Tools.cpp'], [('interpolation functions', S+'Tools/src/Tools.cpp')])
prop('O01', 'OHM metadata file round trip',
 'Writing an OHM metadata description and reading it back yields the same version, description, elements, channels, gains and body part masks, with texts cut to the fixed field size; only files starting with the OHM header are accepted, and a truncated file never makes the reader leave its buffers. The description taken from an experience has one element per perception and one channel record per channel, and an experience loaded from it has the same descriptions, gains and masks.',
 ['inputs'], 'For every description within the bound, every body part mask and every gain.',
 'Tests use a few masks and short texts.',
 [S+'Tools/src/OHMData.cpp'], [('load and write', S+'Tools/src/OHMData.cpp')])
prop('E01', 'AHAP conversion preserves times and levels',
 'Converting an event of an AHAP pattern yields one effect at the event time in ticks: a transient has one keyframe, a continuous event has keyframes in time order at its start, at each control point of a curve that lies strictly inside it, and at its end. Amplitudes are the event intensity mapped to the output range (0.6138 for continuous, 0.792 for transient events, 0.5 without intensity) times the linearly interpolated intensity curve, unscaled where a curve has not begun or has ended (a transient before the curve takes its first value); frequencies are those of the event sharpness plus the sharpness curve, never outside the actuator range of 65 to 300 Hz. Control points are kept in order at their time plus the offset of the curve, incomplete ones are skipped.',
 ['inputs'], 'For every event time, duration, intensity, sharpness and every curve in order of time within the bound.',
 'Tests convert one event under one pair of curves.',
 [S+'Encoder/src/AhapEncoder.cpp'], [('event extraction and curve modulation', S+'Encoder/src/AhapEncoder.cpp')])
prop('E02', 'IVS conversion expands repeats and envelopes faithfully',
 'Converting an IVS timeline yields one effect per launch of a known effect and per round of every repeat around it, in sequence or nested to any depth, delayed by all earlier rounds and converted to the nearest tick, with waveform, frequency (one over the period) and the overriding magnitude, duration and period where given. Its envelope starts at the attack level, reaches the magnitude at the end of the attack, leaves it at the start of the fade and ends at the fade level (or where the attack is cut) at the end of the effect, with keyframes in time order. Each timeline fills its own channel, and a file that cannot be read is refused.',
 ['inputs', 'histories'], 'For every attack, fade, duration, magnitude and repeat structure within the bound.',
 'Tests convert single elements; no test expands a nested repeat.',
 [S+'Encoder/src/IvsEncoder.cpp', S+'Encoder/include/IvsEncoder.h'], [('effect conversion and repeat expansion', S+'Encoder/src/IvsEncoder.cpp')])
prop('E03', 'Signal extrema are exactly the turning points',
 'Extracting the key points of a sampled signal returns, in order and with their values, exactly the inner samples that are at least as high as both neighbours or at most as high as both without being level with both, plus (when asked) the first and the last sample (twice the same one for a single sample). Converting key points to a curve band gives one effect with one keyframe per distinct tick nearest to the sample times, strictly increasing, the last key point of a tick winning; a missing band or a frequency limit of zero or less is refused. Encoding a multichannel file without wavelets gives each channel its own such band, sampling rate and sample count, and a file with fewer channels than the perception has is refused.',
 ['inputs'], 'For every signal up to the stated length, every list of key points, rate and time scale within the bound.',
 'The encoder that uses it is not built by the test configuration, and its tests sample fixed signals.',
 [S+'Encoder/src/PcmEncoder.cpp'], [('local extrema, curve band conversion and file encoding', S+'Encoder/src/PcmEncoder.cpp')])
prop('U01', 'Command line options are found exactly',
 'The option parser reports an option present exactly when one of the arguments equals it, returns the argument following its first occurrence or an empty text, and the file extension is the text after the last dot.',
 ['inputs'], 'For every argument list within the bound.',
 'Tests use fixed command lines.',
 [S+'Tools/src/InputParser.cpp'], [('option lookup', S+'Tools/src/InputParser.cpp')])
prop('A01', 'Audio samples survive the waveform file',
 'Writing sample buffers to a waveform file stores one 16-bit PCM frame per sample index with the channels interleaved in order, the given rate and each sample scaled by 32768, rounded to nearest and clipped to the 16-bit range, by conversions that are defined on every platform; channels of different lengths are refused without writing. Reading a file back gives every channel with its samples in order within half a step, the rate, the channel count and the total number of samples, and an unreadable file is reported.',
 ['inputs'], 'For every sample value (finite), buffer shape and rate within the bound.',
 'The audio reader and writer are not built by the test configuration at all.',
 [S+'Tools/src/WavParser.cpp'], [('waveform load and save', S+'Tools/src/WavParser.cpp')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
