"""A small character-level tokenizer, built offline and loaded like any other by name."""
from pathlib import Path

CHARS = [chr(c) for c in range(32, 127)] + list("äöüé中😀\n")


def save(path: Path) -> str:
    from tokenizers import Tokenizer, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast

    vocab = {c: i for i, c in enumerate(["[UNK]", "<s>", "</s>"] + CHARS)}
    t = Tokenizer(models.WordLevel(vocab, unk_token="[UNK]"))
    t.pre_tokenizer = pre_tokenizers.Split(pattern="", behavior="isolated")
    PreTrainedTokenizerFast(tokenizer_object=t, unk_token="[UNK]", bos_token="<s>", eos_token="</s>").save_pretrained(path)
    return str(path)


def ids(text: str) -> list[int]:
    return [CHARS.index(c) + 3 if c in CHARS else 0 for c in text]


def load(path: str):
    from transformers import AutoTokenizer

    return AutoTokenizer.from_pretrained(path, use_fast=True)
