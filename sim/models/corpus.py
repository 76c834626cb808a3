"""Real contexts and model samples (from the repository's shipped examples).

The file is a fixed copy, so that a seed means the same case on every tree.
"""

import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "corpus.json"), encoding="utf-8") as f:
  EXAMPLES = json.load(f)


def window(rng, budget):
  """A context ending at a random place and the samples' tokens after it.

  budget: number of tokens per sample. Returns (context, list of token lists).
  """
  example = rng.choice(EXAMPLES)
  first = rng.choice(example["samples"])
  at = rng.randrange(max(1, len(first) - budget))
  keep = rng.choice([0, 5, 20, 60])
  context = example["context"] + "".join(t for t, _ in first[:at])
  context = context[len(context) - keep:] if keep else ""
  samples = [first[at:at + budget]]
  for _ in range(rng.choice([0, 1, 1, 2])):
    if rng.random() < 0.5:
      other = rng.choice(example["samples"])
      samples.append(other[at:at + budget])
    else:
      samples.append(first[at:at + rng.randint(0, budget)])
  return context, samples


def text(rng, size):
  context, samples = window(rng, 60)
  code = context + "".join(t for t, _ in samples[0])
  at = rng.randrange(max(1, len(code) - size))
  return code[at:at + size]
