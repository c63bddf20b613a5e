"""Tiny random transformer models for the model-based parsers, saved to disk
in the layout the parsers load."""
import json
import os
import string



def shim():
    """The installed transformers (5.x) dropped helper methods that the
    models call; supply them, with their documented meaning."""
    import torch
    from transformers import PreTrainedModel, logging
    logging.set_verbosity_error()
    logging.disable_progress_bar()
    torch.set_num_threads(1)

    def extended(self, mask, shape, *args, **kwargs):
        mask = mask[:, None, None, :] if mask.dim() == 2 else mask
        low = torch.finfo(self.dtype).min
        return (1 - mask.to(self.dtype)) * low

    def head_mask(self, mask, n, *args, **kwargs):
        return [None] * n if mask is None else mask

    for name, value in (('get_extended_attention_mask', extended),
                        ('get_head_mask', head_mask),
                        ('all_tied_weights_keys', {})):
        if not hasattr(PreTrainedModel, name):
            setattr(PreTrainedModel, name, value)


WORDS = ['the', 'cat', 'dogs', 'chase', 'sees', 'a', 'and', 'runs', 'John',
         'Mary', 'big', ',', '.', 'of', 'who']


def tokenizer(path, specials=()):
    """A WordPiece tokenizer that can spell every ASCII word."""
    from tokenizers import Tokenizer, normalizers, pre_tokenizers, processors
    from tokenizers.models import WordPiece
    from transformers import PreTrainedTokenizerFast
    chars = string.ascii_letters + string.digits + ".,'-$"
    vocab = ['[PAD]', '[UNK]', '[CLS]', '[SEP]', '[MASK]', *specials, *WORDS,
             *chars, *('##' + c for c in chars), '##ing', 'un', '##s']
    ids = {}
    for v in vocab:
        ids.setdefault(v, len(ids))
    t = Tokenizer(WordPiece(ids, unk_token='[UNK]'))
    t.normalizer = normalizers.BertNormalizer(lowercase=False,
                                              strip_accents=False)
    t.pre_tokenizer = pre_tokenizers.WhitespaceSplit()
    t.post_processor = processors.TemplateProcessing(
        single='[CLS] $A [SEP]',
        special_tokens=[('[CLS]', ids['[CLS]']), ('[SEP]', ids['[SEP]'])])
    fast = PreTrainedTokenizerFast(
        tokenizer_object=t, pad_token='[PAD]', unk_token='[UNK]',
        cls_token='[CLS]', sep_token='[SEP]', mask_token='[MASK]',
        additional_special_tokens=list(specials), model_max_length=64,
        model_input_names=['input_ids', 'token_type_ids', 'attention_mask'])
    fast.save_pretrained(path)
    return ids


def bert_args(ids, seed):
    import torch
    torch.manual_seed(seed)
    return dict(vocab_size=len(ids), hidden_size=16, num_hidden_layers=1,
                num_attention_heads=2, intermediate_size=16,
                max_position_embeddings=64, pad_token_id=0,
                initializer_range=1.0)


def bobcat(path, cats, tags, grammar, seed=0, **pipeline):
    """A Bobcat model directory."""
    from lambeq.bobcat.tagger import (BertForChartClassification,
                                      ChartClassifierConfig)
    os.makedirs(path, exist_ok=True)
    ids = tokenizer(path)
    config = ChartClassifierConfig(tags=list(tags), cats=list(cats),
                                   **bert_args(ids, seed))
    BertForChartClassification(config).save_pretrained(path)
    grammar.save(os.path.join(path, 'grammar.json'))
    conf = {'tagger': dict(batch_size=1, tag_top_k=0, tag_prob_threshold=0,
                           tag_prob_threshold_strategy='relative',
                           span_top_k=0, span_prob_threshold=0,
                           span_prob_threshold_strategy='relative'),
            'parser': dict(eisner_normal_form=True, max_parse_trees=100000,
                           beam_size=8, input_tag_score_weight=1,
                           missing_cat_score=-5, missing_span_score=-5)}
    with open(os.path.join(path, 'pipeline_config.json'), 'w') as f:
        json.dump(conf, f)


TYPES = ['unk', 's', 'n', 'n.r @ s', 'n @ n', 's.r @ n.r.r @ n', 'p', 'n.l']


def oncilla(path, seed=0, types=TYPES):
    from lambeq.oncilla.parser import (BertForSentenceToTree,
                                       SentenceToTreeBertConfig)
    os.makedirs(path, exist_ok=True)
    ids = tokenizer(path, ['[ROOT]'])
    config = SentenceToTreeBertConfig(types=types, vocab=ids,
                                      **bert_args(ids, seed))
    BertForSentenceToTree(config).save_pretrained(path)
